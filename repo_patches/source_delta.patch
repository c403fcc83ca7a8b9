From e3fd96ecbbe59e5372094f3667f9b547218566d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:21 +0000
Subject: [PATCH 001/158] fix: a sign after an operator is a unary sign, not an
 empty string operand

The empty alternative of the string expression came before the signed
expression, so 'a * -b' was parsed as '(a * <nothing>) - b' and evaluated to -b
(likewise 'a - -b' was 'a - b', '2 ^ -1' was 0). It is now the last alternative,
with the alternatives of the generated parsers reordered accordingly. A sign
before a whole term still applies to that term: '-a * b' remains '-(a * b)'.
---
 src/grammar/McCommon.g4                   |  3 +-
 src/mccode_antlr/common/visitor.py        | 13 ++++-
 src/mccode_antlr/grammar/McCompParser.py  | 60 +++++++++++-----------
 src/mccode_antlr/grammar/McInstrParser.py | 62 +++++++++++------------
 4 files changed, 74 insertions(+), 64 deletions(-)

diff --git a/src/grammar/McCommon.g4 b/src/grammar/McCommon.g4
index 43e376c..8800227 100644
--- a/src/grammar/McCommon.g4
+++ b/src/grammar/McCommon.g4
@@ -40,7 +40,6 @@ expr
   : '0'                                             #ExpressionZero
   | IntegerLiteral                                  #ExpressionInteger
   | FloatingLiteral                                 #ExpressionFloat
-  | (args+=StringLiteral)*                          #ExpressionString
   | Identifier '->' expr                            #ExpressionPointerAccess
   | Identifier '.' expr                             #ExpressionStructAccess
   | Identifier '[' expr ']'                         #ExpressionArrayAccess
@@ -65,6 +64,8 @@ expr
   | test=expr '?' true_=expr ':' false_=expr        #ExpressionTrinaryLogic
   | Previous                                        #ExpressionPrevious
   | Myself                                          #ExpressionMyself
+  // may match nothing, e.g. the arguments of `f()`: must be the last alternative, or `a * -b` is `(a * <nothing>) - b`
+  | (args+=StringLiteral)*                          #ExpressionString
   ;
 
 shell: Shell StringLiteral;
diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index d262d29..6ac5217 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -47,9 +47,18 @@ def visitExpressionInteger(obj, ctx):
 def visitExpressionZero(obj, ctx):
     return Expr.int(0)
 
+def _sign_outside(left, operation):
+    # The sign in `-a * b`, `-a / b` or `-a ^ b` applies to the whole term: `-(a * b)`, `-(a / b)`, `-(a ^ b)`
+    first = left.expr[0]
+    negated = isinstance(first, UnaryOp) and first.op == '-'
+    negative = isinstance(first, Value) and isinstance(first.value, (int, float)) and first.value < 0
+    if left.is_singular and (negated or negative):
+        return -operation(-left)
+    return operation(left)
+
 def visitExpressionExponentiation(obj, ctx):
     base, exponent = [obj.visit(ex) for ex in ctx.expr()]
-    return base ** exponent
+    return _sign_outside(base, lambda x: x ** exponent)
 
 def visitExpressionBinaryPM(obj, ctx):
     # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
@@ -65,7 +74,7 @@ def visitExpressionFunctionCall(obj, ctx):
 def visitExpressionBinaryMD(obj, ctx):
     # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
     left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return left * right if ctx.Div() is None else left / right
+    return _sign_outside(left, lambda x: x * right if ctx.Div() is None else x / right)
 
 def visitExpressionBinaryMod(obj, ctx):
     # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
diff --git a/src/mccode_antlr/grammar/McCompParser.py b/src/mccode_antlr/grammar/McCompParser.py
index b7baf41..e0fafc5 100644
--- a/src/mccode_antlr/grammar/McCompParser.py
+++ b/src/mccode_antlr/grammar/McCompParser.py
@@ -176,9 +176,9 @@ def serializedATN():
         0,430,431,5,97,0,0,431,440,1,0,0,0,432,433,7,3,0,0,433,440,3,48,
         24,19,434,440,5,143,0,0,435,436,5,111,0,0,436,440,3,48,24,5,437,
         440,5,22,0,0,438,440,5,33,0,0,439,395,1,0,0,0,439,397,1,0,0,0,439,
-        398,1,0,0,0,439,402,1,0,0,0,439,405,1,0,0,0,439,408,1,0,0,0,439,
-        411,1,0,0,0,439,416,1,0,0,0,439,428,1,0,0,0,439,432,1,0,0,0,439,
-        434,1,0,0,0,439,435,1,0,0,0,439,437,1,0,0,0,439,438,1,0,0,0,440,
+        398,1,0,0,0,439,405,1,0,0,0,439,408,1,0,0,0,439,411,1,0,0,0,439,
+        416,1,0,0,0,439,428,1,0,0,0,439,432,1,0,0,0,439,434,1,0,0,0,439,
+        435,1,0,0,0,439,437,1,0,0,0,439,438,1,0,0,0,439,402,1,0,0,0,440,
         488,1,0,0,0,441,442,10,18,0,0,442,443,5,107,0,0,443,487,3,48,24,
         18,444,445,10,17,0,0,445,446,7,4,0,0,446,487,3,48,24,18,447,448,
         10,16,0,0,448,449,7,3,0,0,449,487,3,48,24,17,450,451,10,15,0,0,451,
@@ -3729,24 +3729,6 @@ class McCompParser ( Parser ):
                 pass
 
             elif la_ == 4:
-                localctx = McCompParser.ExpressionStringContext(self, localctx)
-                self._ctx = localctx
-                _prevctx = localctx
-                self.state = 402
-                self._errHandler.sync(self)
-                _alt = self._interp.adaptivePredict(self._input,65,self._ctx)
-                while _alt!=2 and _alt!=ATN.INVALID_ALT_NUMBER:
-                    if _alt==1:
-                        self.state = 399
-                        localctx._StringLiteral = self.match(McCompParser.StringLiteral)
-                        localctx.args.append(localctx._StringLiteral) 
-                    self.state = 404
-                    self._errHandler.sync(self)
-                    _alt = self._interp.adaptivePredict(self._input,65,self._ctx)
-
-                pass
-
-            elif la_ == 5:
                 localctx = McCompParser.ExpressionPointerAccessContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -3758,7 +3740,7 @@ class McCompParser ( Parser ):
                 self.expr(24)
                 pass
 
-            elif la_ == 6:
+            elif la_ == 5:
                 localctx = McCompParser.ExpressionStructAccessContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -3770,7 +3752,7 @@ class McCompParser ( Parser ):
                 self.expr(23)
                 pass
 
-            elif la_ == 7:
+            elif la_ == 6:
                 localctx = McCompParser.ExpressionArrayAccessContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -3784,7 +3766,7 @@ class McCompParser ( Parser ):
                 self.match(McCompParser.RightBracket)
                 pass
 
-            elif la_ == 8:
+            elif la_ == 7:
                 localctx = McCompParser.ExpressionFunctionCallContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -3812,7 +3794,7 @@ class McCompParser ( Parser ):
                 self.match(McCompParser.RightParen)
                 pass
 
-            elif la_ == 9:
+            elif la_ == 8:
                 localctx = McCompParser.ExpressionGroupingContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -3824,7 +3806,7 @@ class McCompParser ( Parser ):
                 self.match(McCompParser.RightParen)
                 pass
 
-            elif la_ == 10:
+            elif la_ == 9:
                 localctx = McCompParser.ExpressionUnaryPMContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -3839,7 +3821,7 @@ class McCompParser ( Parser ):
                 self.expr(19)
                 pass
 
-            elif la_ == 11:
+            elif la_ == 10:
                 localctx = McCompParser.ExpressionIdentifierContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -3847,7 +3829,7 @@ class McCompParser ( Parser ):
                 self.match(McCompParser.Identifier)
                 pass
 
-            elif la_ == 12:
+            elif la_ == 11:
                 localctx = McCompParser.ExpressionUnaryLogicContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -3857,7 +3839,7 @@ class McCompParser ( Parser ):
                 self.expr(5)
                 pass
 
-            elif la_ == 13:
+            elif la_ == 12:
                 localctx = McCompParser.ExpressionPreviousContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -3865,7 +3847,7 @@ class McCompParser ( Parser ):
                 self.match(McCompParser.Previous)
                 pass
 
-            elif la_ == 14:
+            elif la_ == 13:
                 localctx = McCompParser.ExpressionMyselfContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -3873,6 +3855,24 @@ class McCompParser ( Parser ):
                 self.match(McCompParser.Myself)
                 pass
 
+            elif la_ == 14:
+                localctx = McCompParser.ExpressionStringContext(self, localctx)
+                self._ctx = localctx
+                _prevctx = localctx
+                self.state = 402
+                self._errHandler.sync(self)
+                _alt = self._interp.adaptivePredict(self._input,65,self._ctx)
+                while _alt!=2 and _alt!=ATN.INVALID_ALT_NUMBER:
+                    if _alt==1:
+                        self.state = 399
+                        localctx._StringLiteral = self.match(McCompParser.StringLiteral)
+                        localctx.args.append(localctx._StringLiteral) 
+                    self.state = 404
+                    self._errHandler.sync(self)
+                    _alt = self._interp.adaptivePredict(self._input,65,self._ctx)
+
+                pass
+
 
             self._ctx.stop = self._input.LT(-1)
             self.state = 488
diff --git a/src/mccode_antlr/grammar/McInstrParser.py b/src/mccode_antlr/grammar/McInstrParser.py
index 3a42a91..6e03ff7 100644
--- a/src/mccode_antlr/grammar/McInstrParser.py
+++ b/src/mccode_antlr/grammar/McInstrParser.py
@@ -176,10 +176,10 @@ def serializedATN():
         0,0,442,443,3,70,35,0,443,444,5,97,0,0,444,453,1,0,0,0,445,446,7,
         4,0,0,446,453,3,70,35,19,447,453,5,143,0,0,448,449,5,111,0,0,449,
         453,3,70,35,5,450,453,5,22,0,0,451,453,5,33,0,0,452,408,1,0,0,0,
-        452,410,1,0,0,0,452,411,1,0,0,0,452,415,1,0,0,0,452,418,1,0,0,0,
-        452,421,1,0,0,0,452,424,1,0,0,0,452,429,1,0,0,0,452,441,1,0,0,0,
-        452,445,1,0,0,0,452,447,1,0,0,0,452,448,1,0,0,0,452,450,1,0,0,0,
-        452,451,1,0,0,0,453,501,1,0,0,0,454,455,10,18,0,0,455,456,5,107,
+        452,410,1,0,0,0,452,411,1,0,0,0,452,418,1,0,0,0,452,421,1,0,0,0,
+        452,424,1,0,0,0,452,429,1,0,0,0,452,441,1,0,0,0,452,445,1,0,0,0,
+        452,447,1,0,0,0,452,448,1,0,0,0,452,450,1,0,0,0,452,451,1,0,0,0,
+        452,415,1,0,0,0,453,501,1,0,0,0,454,455,10,18,0,0,455,456,5,107,
         0,0,456,500,3,70,35,18,457,458,10,17,0,0,458,459,7,5,0,0,459,500,
         3,70,35,18,460,461,10,16,0,0,461,462,7,4,0,0,462,500,3,70,35,17,
         463,464,10,15,0,0,464,465,5,106,0,0,465,500,3,70,35,16,466,467,10,
@@ -4130,24 +4130,6 @@ class McInstrParser ( Parser ):
                 pass
 
             elif la_ == 4:
-                localctx = McInstrParser.ExpressionStringContext(self, localctx)
-                self._ctx = localctx
-                _prevctx = localctx
-                self.state = 415
-                self._errHandler.sync(self)
-                _alt = self._interp.adaptivePredict(self._input,57,self._ctx)
-                while _alt!=2 and _alt!=ATN.INVALID_ALT_NUMBER:
-                    if _alt==1:
-                        self.state = 412
-                        localctx._StringLiteral = self.match(McInstrParser.StringLiteral)
-                        localctx.args.append(localctx._StringLiteral) 
-                    self.state = 417
-                    self._errHandler.sync(self)
-                    _alt = self._interp.adaptivePredict(self._input,57,self._ctx)
-
-                pass
-
-            elif la_ == 5:
                 localctx = McInstrParser.ExpressionPointerAccessContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -4159,7 +4141,7 @@ class McInstrParser ( Parser ):
                 self.expr(24)
                 pass
 
-            elif la_ == 6:
+            elif la_ == 5:
                 localctx = McInstrParser.ExpressionStructAccessContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -4171,7 +4153,7 @@ class McInstrParser ( Parser ):
                 self.expr(23)
                 pass
 
-            elif la_ == 7:
+            elif la_ == 6:
                 localctx = McInstrParser.ExpressionArrayAccessContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -4185,7 +4167,7 @@ class McInstrParser ( Parser ):
                 self.match(McInstrParser.RightBracket)
                 pass
 
-            elif la_ == 8:
+            elif la_ == 7:
                 localctx = McInstrParser.ExpressionFunctionCallContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -4213,7 +4195,7 @@ class McInstrParser ( Parser ):
                 self.match(McInstrParser.RightParen)
                 pass
 
-            elif la_ == 9:
+            elif la_ == 8:
                 localctx = McInstrParser.ExpressionGroupingContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -4225,7 +4207,7 @@ class McInstrParser ( Parser ):
                 self.match(McInstrParser.RightParen)
                 pass
 
-            elif la_ == 10:
+            elif la_ == 9:
                 localctx = McInstrParser.ExpressionUnaryPMContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -4240,7 +4222,7 @@ class McInstrParser ( Parser ):
                 self.expr(19)
                 pass
 
-            elif la_ == 11:
+            elif la_ == 10:
                 localctx = McInstrParser.ExpressionIdentifierContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -4248,7 +4230,7 @@ class McInstrParser ( Parser ):
                 self.match(McInstrParser.Identifier)
                 pass
 
-            elif la_ == 12:
+            elif la_ == 11:
                 localctx = McInstrParser.ExpressionUnaryLogicContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -4258,7 +4240,7 @@ class McInstrParser ( Parser ):
                 self.expr(5)
                 pass
 
-            elif la_ == 13:
+            elif la_ == 12:
                 localctx = McInstrParser.ExpressionPreviousContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -4266,7 +4248,7 @@ class McInstrParser ( Parser ):
                 self.match(McInstrParser.Previous)
                 pass
 
-            elif la_ == 14:
+            elif la_ == 13:
                 localctx = McInstrParser.ExpressionMyselfContext(self, localctx)
                 self._ctx = localctx
                 _prevctx = localctx
@@ -4274,6 +4256,24 @@ class McInstrParser ( Parser ):
                 self.match(McInstrParser.Myself)
                 pass
 
+            elif la_ == 14:
+                localctx = McInstrParser.ExpressionStringContext(self, localctx)
+                self._ctx = localctx
+                _prevctx = localctx
+                self.state = 415
+                self._errHandler.sync(self)
+                _alt = self._interp.adaptivePredict(self._input,57,self._ctx)
+                while _alt!=2 and _alt!=ATN.INVALID_ALT_NUMBER:
+                    if _alt==1:
+                        self.state = 412
+                        localctx._StringLiteral = self.match(McInstrParser.StringLiteral)
+                        localctx.args.append(localctx._StringLiteral) 
+                    self.state = 417
+                    self._errHandler.sync(self)
+                    _alt = self._interp.adaptivePredict(self._input,57,self._ctx)
+
+                pass
+
 
             self._ctx.stop = self._input.LT(-1)
             self.state = 501
-- 
2.43.0


From def8a539a138e9e838ed2e8d3d59c605dcbb3830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 002/158] fix: operations can be combined with plain numbers
 and raised to powers

(a + b) ^ 2 and sin(x) ^ 2 could not be parsed, and a * b + 1 raised
AttributeError when built from expressions and Python numbers.
---
 src/mccode_antlr/common/expression.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 5726035..4db62c4 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -241,17 +241,24 @@ class Op:
     def vector_known(self):
         return False
 
+    @staticmethod
+    def _operand(other):
+        return other if isinstance(other, (Value, Op)) else Value.best(other)
+
     def __add__(self, other):
+        other = self._operand(other)
         if other.is_zero:
             return self
         return BinaryOp('+', self, other)
 
     def __sub__(self, other):
+        other = self._operand(other)
         if other.is_zero:
             return self
         return BinaryOp('-', self, other)
 
     def __mul__(self, other):
+        other = self._operand(other)
         if other.is_zero:
             return other
         if other.is_value(1):
@@ -261,6 +268,7 @@ class Op:
         return BinaryOp('*', self, other)
 
     def __truediv__(self, other):
+        other = self._operand(other)
         if other.is_zero:
             raise RuntimeError('Division by zero')
         if other.is_value(1):
@@ -270,6 +278,7 @@ class Op:
         return BinaryOp('/', self, other)
 
     def __floordiv__(self, other):
+        other = self._operand(other)
         if other.is_zero:
             raise RuntimeError('Division by zero')
         if other.is_value(1):
@@ -278,6 +287,12 @@ class Op:
             return -self
         return BinaryOp('//', self, other)
 
+    def __pow__(self, power):
+        power = self._operand(power)
+        if power.is_zero:
+            return Value(1, data_type=DataType.int)
+        return BinaryOp('__pow__', self, power)
+
     def __neg__(self):
         return UnaryOp('-', self)
 
-- 
2.43.0


From be88e73a8f548b9dc8fc8ac7aceff9b28d8e439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 003/158] fix: simplified and evaluated expressions are not
 nested inside one another

Simplifying an operand to an Expr left that Expr inside the list of operands, so
that 'a + b + c' with every name known did not evaluate to a constant.
---
 src/mccode_antlr/common/expression.py | 33 ++++++++++++---------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 4db62c4..11b437d 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -191,6 +191,12 @@ def _fmt_comb(fmt, s: list):
     return ','.join(f'{x:{fmt}}' for x in s)
 
 
+def _flat(s):
+    """Unpack any Expr objects so that the operands of an operation are only Value and Op objects"""
+    s = s if isinstance(s, list) else [s]
+    return [y for x in s for y in (_flat(x.expr) if isinstance(x, Expr) else [x])]
+
+
 class Op:
     def __init__(self):
         self.data_type = DataType.undefined
@@ -310,8 +316,7 @@ class TrinaryOp(Op):
     def __init__(self, op, first, second, third):
         super().__init__()
         self.op = op
-        first, second, third = [x.expr if isinstance(x, Expr) else x for x in (first, second, third)]
-        first, second, third = [[x] if not isinstance(x, list) else x for x in (first, second, third)]
+        first, second, third = [_flat(x) for x in (first, second, third)]
         self.first = first
         self.second = second
         self.third = third
@@ -367,7 +372,7 @@ class TrinaryOp(Op):
             and self.first[0].vector_known and self.second[0].vector_known and self.third[0].vector_known
 
     def simplify(self):
-        f, s, t = [[x.simplify() for x in y] for y in (self.first, self.second, self.third)]
+        f, s, t = [_flat([x.simplify() for x in y]) for y in (self.first, self.second, self.third)]
         if self.op == '__trinary__' and len(f) == 1:
             if f[0].is_value(True) and not f[0].is_value(False):
                 return Expr(s)
@@ -398,14 +403,7 @@ class TrinaryOp(Op):
 class BinaryOp(Op):
     def __init__(self, op, left, right):
         super().__init__()
-        if isinstance(left, Expr):
-            left = left.expr
-        if isinstance(right, Expr):
-            right = right.expr
-        if not isinstance(left, list):
-            left = [left]
-        if not isinstance(right, list):
-            right = [right]
+        left, right = _flat(left), _flat(right)
         self.op = op
         self.left = left
         self.right = right
@@ -507,8 +505,8 @@ class BinaryOp(Op):
     #     return max(len(self.left), len(self.right))
 
     def simplify(self):
-        left = [x.simplify() for x in self.left]
-        right = [x.simplify() for x in self.right]
+        left = _flat([x.simplify() for x in self.left])
+        right = _flat([x.simplify() for x in self.right])
         if len(left) == 1 and ((left[0].is_zero and self.op == '+') or (left[0].is_value(1) and self.op == '*')):
             return Expr(right)
         if len(right) == 1 and (
@@ -552,10 +550,7 @@ class BinaryOp(Op):
 class UnaryOp(Op):
     def __init__(self, op, value):
         super().__init__()
-        if isinstance(value, Expr):
-            value = value.expr
-        if not isinstance(value, list):
-            value = [value]
+        value = _flat(value)
         self.op = op
         self.value = value
         data_types = list(dict.fromkeys(x.data_type for x in value))
@@ -626,7 +621,7 @@ class UnaryOp(Op):
         return False
 
     def simplify(self):
-        value = [v.simplify() for v in self.value]
+        value = _flat([v.simplify() for v in self.value])
         if self.op == '__group__' and len(value) == 1 and isinstance(value[0], Value):
             return value[0]  # Expr(value)
         return UnaryOp(self.op, value)
@@ -1037,7 +1032,7 @@ ExprNode = Union[ExprNodeSingular, list[ExprNodeSingular]]
 
 class Expr:
     def __init__(self, expr: ExprNode):
-        self.expr = expr if isinstance(expr, list) else [expr]
+        self.expr = _flat(expr)
 
     def __str__(self):
         return ','.join(str(x) for x in self.expr)
-- 
2.43.0


From 8f12f901ccb4083a847eba67f674de7c3f709045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 004/158] fix: a negated expression of known values evaluates
 to a number

'-a' with a known was left as the operation '-' of a number, which is not a
constant and was printed as '--1' for a negative value.
---
 src/mccode_antlr/common/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 11b437d..ead23e7 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -624,6 +624,8 @@ class UnaryOp(Op):
         value = _flat([v.simplify() for v in self.value])
         if self.op == '__group__' and len(value) == 1 and isinstance(value[0], Value):
             return value[0]  # Expr(value)
+        if self.op == '-' and len(value) == 1 and isinstance(value[0], Value) and isinstance(value[0].value, (int, float)):
+            return -value[0]
         return UnaryOp(self.op, value)
 
     def evaluate(self, known: dict):
-- 
2.43.0


From c8c4b56f1a0f93d01b9d839b50c33200daa11be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 005/158] fix: a copied expression does not share its operands
 with the original

Marking instrument parameters or changing a type in a copy altered the original.
---
 src/mccode_antlr/common/expression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index ead23e7..0727153 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -388,7 +388,7 @@ class TrinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.first, self.second, self.third))
 
     def copy(self):
-        return TrinaryOp(self.op, self.first, self.second, self.third)
+        return TrinaryOp(self.op, *[[x.copy() for x in y] for y in (self.first, self.second, self.third)])
 
     def __contains__(self, value):
         # first, second, and third are lists, so we need to check each element to avoid using __eq__
@@ -535,7 +535,7 @@ class BinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.left, self.right))
 
     def copy(self):
-        return BinaryOp(self.op, self.left.copy(), self.right.copy())
+        return BinaryOp(self.op, [x.copy() for x in self.left], [x.copy() for x in self.right])
 
     def __contains__(self, value):
         # left and right are lists, so we need to check each element to avoid using __eq__
@@ -636,7 +636,7 @@ class UnaryOp(Op):
         return any(x.depends_on(name) for x in self.value)
 
     def copy(self):
-        return UnaryOp(self.op, self.value.copy())
+        return UnaryOp(self.op, [x.copy() for x in self.value])
 
     def __contains__(self, value):
         # value is a list
-- 
2.43.0


From 17e8bf91cb98f39eabf9738171d7a085319f3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 006/158] fix: operations made in Python are printed with the
 parentheses they need

a / (b * c) was printed as 'a / b * c', (a < b) * c as 'a<b * c' and -(-1) as '--1'
unless the parentheses came from parsed text.
---
 src/mccode_antlr/common/expression.py | 34 +++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 0727153..1a4a498 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -197,6 +197,26 @@ def _flat(s):
     return [y for x in s for y in (_flat(x.expr) if isinstance(x, Expr) else [x])]
 
 
+def _is_loose(x):
+    """Comparisons, logic and the ternary operation bind less tightly than any arithmetic operation"""
+    return isinstance(x, TrinaryOp) or isinstance(x, BinaryOp) and x.op in (
+        '__lt__', '__gt__', '__le__', '__ge__', '__eq__', '__neq__', '__and__', '__or__')
+
+
+def _is_product(x, ops=('*', '/', '//')):
+    return isinstance(x, BinaryOp) and x.op in ops
+
+
+def _is_negative(x):
+    if isinstance(x, Value):
+        return isinstance(x.value, (int, float)) and x.value < 0
+    return isinstance(x, UnaryOp) and x.op == '-'
+
+
+def _wrap(string, operands, condition):
+    return f'({string})' if len(operands) == 1 and condition(operands[0]) else string
+
+
 class Op:
     def __init__(self):
         self.data_type = DataType.undefined
@@ -423,7 +443,20 @@ class BinaryOp(Op):
         right = [x.as_type(pdt) for x in self.right]
         return BinaryOp(self.op, left, right)
 
+    def _wrap_operands(self, lstr, rstr):
+        """Operations which were not grouped in their source, e.g., since they were made in Python, need parentheses"""
+        if self.op in ('+', '-', '*', '/', '//', '__pow__'):
+            lstr, rstr = _wrap(lstr, self.left, _is_loose), _wrap(rstr, self.right, _is_loose)
+        if self.op in ('/', '//', '__pow__'):
+            rstr = _wrap(rstr, self.right, _is_product)
+        elif self.op == '*':
+            rstr = _wrap(rstr, self.right, lambda x: _is_product(x, ('/', '//')))
+        if self.op == '__pow__':
+            lstr = _wrap(lstr, self.left, lambda x: _is_product(x, ('*', '/', '//', '__pow__')) or _is_negative(x))
+        return lstr, rstr
+
     def _str_repr_(self, lstr, rstr):
+        lstr, rstr = self._wrap_operands(lstr, rstr)
         if '__call__' == self.op:
             return f'{lstr}({rstr})'
         if '__struct_access__' == self.op:
@@ -569,6 +602,7 @@ class UnaryOp(Op):
         if '__not__' == self.op:
             return f'!{vstr}' if 'C' == self.style else f'not {vstr}'
         if any(x in self.op for x in '+-'):
+            vstr = _wrap(vstr, self.value, lambda x: _is_loose(x) or _is_negative(x))
             return f'{self.op}{vstr}'
         return f'{self.op}({vstr})'
 
-- 
2.43.0


From 7984fb1713a7500ba4d8b149c409bb1710a496eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 007/158] fix: equal expressions have equal hashes

Operations were not hashable at all, and an expression's hash depended on how it is
printed: a + b equals b + a, and 1 equals 1.0, but their hashes differed.
---
 src/mccode_antlr/common/expression.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 1a4a498..1772c7e 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -376,6 +376,9 @@ class TrinaryOp(Op):
             return False
         return self.op == other.op and self.first == other.first and self.second == other.second and self.third == other.third
 
+    def __hash__(self):
+        return hash((self.op, tuple(self.first), tuple(self.second), tuple(self.third)))
+
     @property
     def is_scalar(self):
         return len(self.first) == 1 and len(self.second) == 1 and len(self.third) == 1\
@@ -512,6 +515,11 @@ class BinaryOp(Op):
                 return True
         return self.left == other.left and self.right == other.right
 
+    def __hash__(self):
+        # equal operations must have equal hashes, including commuted additions and multiplications
+        left, right = tuple(self.left), tuple(self.right)
+        return hash((self.op, hash(left) ^ hash(right) if self.op in ('+', '*') else (left, right)))
+
     def __round__(self, n=None):
         return self if self.data_type.is_int else UnaryOp('round', self)
 
@@ -632,6 +640,9 @@ class UnaryOp(Op):
             return False
         return self.op == other.op and self.value == other.value
 
+    def __hash__(self):
+        return hash((self.op, tuple(self.value)))
+
     def __round__(self, n=None):
         return self if self.data_type.is_int else UnaryOp('round', self)
 
@@ -771,7 +782,7 @@ class Value:
         return f'{self.shape_type} {self.data_type} {self._str_repr_()}'
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(tuple(self.value) if isinstance(self.value, list) else self.value)
 
     def compatible(self, other, id_ok=False):
         if isinstance(other, Expr) and other.is_singular:
@@ -1081,7 +1092,7 @@ class Expr:
         return ','.join(repr(x) for x in self.expr)
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(tuple(self.expr))
 
     def __contains__(self, value):
         return any(value in x for x in self.expr)
-- 
2.43.0


From df4d22ec999eb85e939e98407f0fa5ce01fba079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 008/158] fix: zero raised to the power zero is one

and zero raised to an unknown or negative power is not known to be zero.
---
 src/mccode_antlr/common/expression.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 1772c7e..b802e10 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -1017,10 +1017,12 @@ class Value:
     def __pow__(self, power):
         if not isinstance(power, (Value, Op)):
             power = Value.best(power)
-        if self.is_zero or self.is_value(1):
-            return self
         if power.is_zero:
             return Value(1, data_type=self.data_type)
+        if self.is_value(1):
+            return self
+        if self.is_zero and isinstance(power, Value) and isinstance(power.value, (int, float)) and power.value > 0:
+            return self
         return BinaryOp('__pow__', self, power)
 
     @property
-- 
2.43.0


From 20d6453f2e71e8773784d7a342622bf1385de3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 009/158] fix: C integer and floating point literals keep their
 value

Octal literals were read as decimal, and hexadecimal or suffixed literals were kept
as strings, so that e.g. 0x10 + 1 could not be parsed.
---
 src/mccode_antlr/common/visitor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 6ac5217..90f1b95 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -19,7 +19,7 @@ def visitExpressionGrouping(obj, ctx):
     return Expr(UnaryOp('__group__', obj.visit(ctx.expr())))
 
 def visitExpressionFloat(obj, ctx):
-    return Expr.float(str(ctx.FloatingLiteral()))
+    return Expr.float(str(ctx.FloatingLiteral()).rstrip('fFlL'))
 
 def visitExpressionPointerAccess(obj, ctx):
     pointer = Expr(Value(str(ctx.Identifier()), object_type=ObjectType.identifier))
@@ -42,7 +42,10 @@ def visitExpressionIdentifier(obj, ctx):
     return Expr(Value(name, data_type=dat, object_type=obj))
 
 def visitExpressionInteger(obj, ctx):
-    return Expr.int(str(ctx.IntegerLiteral()))
+    literal = str(ctx.IntegerLiteral()).rstrip('uUlL')
+    # Hexadecimal, 0x1f, and binary, 0b11, literals have the same form in C and Python, but octal, 017, do not
+    base = 8 if literal[0] == '0' and literal.isdigit() else 0
+    return Expr.int(int(literal, base))
 
 def visitExpressionZero(obj, ctx):
     return Expr.int(0)
-- 
2.43.0


From 3239c4b966ff4340510d292eb5b67150d0bf7d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 010/158] fix: a string literal which ends in an escaped quote
 keeps it

"say \"x\"" lost its last quote and left an unterminated string.
---
 src/mccode_antlr/common/visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 90f1b95..5be4685 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -152,7 +152,8 @@ def visitExpressionBinaryGreater(obj, ctx):
     return Expr(BinaryOp('__gt__', left, right))
 
 def visitExpressionString(obj, ctx):
-    strings = ''.join(str(sl).strip('"') for sl in ctx.StringLiteral())
+    # remove only the enclosing quotes -- the string itself could start or end in an (escaped) quote
+    strings = ''.join(str(sl)[1:-1] for sl in ctx.StringLiteral())
     return Expr.str(f'"{strings}"')
 
 
-- 
2.43.0


From 6e57e355c3e22eaf339f20e77006ae0059ea8dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 011/158] fix: a function call without arguments is not given
 an empty string

rand01() was parsed, and hence translated to C, as rand01("").
---
 src/mccode_antlr/common/visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 5be4685..58d6588 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -71,7 +71,8 @@ def visitExpressionBinaryPM(obj, ctx):
 def visitExpressionFunctionCall(obj, ctx):
     function = Value(str(ctx.Identifier()), object_type=ObjectType.function)
     # `ctx.args` isn't exposed by speedy-antlr-tool, but the function call is
-    args = [obj.visit(arg).expr[0] for arg in ctx.expr()]  # each is a Value, UnaryOp, or BinaryOp?
+    # a call without arguments has one (string) expression made of no tokens
+    args = [obj.visit(arg).expr[0] for arg in ctx.expr() if arg.getText()]  # each is a Value, UnaryOp, or BinaryOp?
     return Expr(BinaryOp('__call__', function, args))
 
 def visitExpressionBinaryMD(obj, ctx):
-- 
2.43.0


From df9c24f0457966ecd635087c085803233ecab36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 012/158] fix: the name of a struct member is not an instrument
 parameter of the same name

---
 src/mccode_antlr/common/expression.py |  3 +++
 src/mccode_antlr/common/visitor.py    | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index b802e10..7e688eb 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -41,6 +41,7 @@ class ObjectType(Enum):
     identifier = 3
     function = 4
     parameter = 5
+    member = 6  # the name of a struct member, which is not an identifier on its own
 
     def __str__(self):
         return self.name
@@ -57,6 +58,8 @@ class ObjectType(Enum):
             return ObjectType.function
         if 'parameter' in name:
             return ObjectType.parameter
+        if 'member' in name:
+            return ObjectType.member
         raise RuntimeError(f"No known conversion from non-enumerated object type {name}")
 
     @property
diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 58d6588..2be803c 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -21,13 +21,23 @@ def visitExpressionGrouping(obj, ctx):
 def visitExpressionFloat(obj, ctx):
     return Expr.float(str(ctx.FloatingLiteral()).rstrip('fFlL'))
 
+def _member(expr):
+    # The (first) name in `b`, `b[i]`, or `b.c` after a struct or pointer access is the name of a member, and
+    # not an identifier which could be the name of a parameter. The name in a function call, `b(x)`, never is.
+    first = expr.expr[0]
+    while isinstance(first, BinaryOp) and first.op in ('__getitem__', '__struct_access__', '__pointer_access__'):
+        first = first.left[0]
+    if isinstance(first, Value) and first.is_id:
+        first._object = ObjectType.member
+    return expr
+
 def visitExpressionPointerAccess(obj, ctx):
     pointer = Expr(Value(str(ctx.Identifier()), object_type=ObjectType.identifier))
-    return Expr(BinaryOp('__pointer_access__', pointer, obj.visit(ctx.expr())))
+    return Expr(BinaryOp('__pointer_access__', pointer, _member(obj.visit(ctx.expr()))))
 
 def visitExpressionStructAccess(obj, ctx):
     struct = Expr(Value(str(ctx.Identifier()), object_type=ObjectType.identifier))
-    return Expr(BinaryOp('__struct_access__', struct, obj.visit(ctx.expr())))
+    return Expr(BinaryOp('__struct_access__', struct, _member(obj.visit(ctx.expr()))))
 
 def visitExpressionArrayAccess(obj, ctx):
     array = Expr(Value(str(ctx.Identifier()), object_type=ObjectType.identifier, shape_type=ShapeType.vector))
-- 
2.43.0


From 7145d60ff7dd00225235a7e7effe470424d98a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 013/158] fix: a negated product is printed in parentheses as a
 divisor or an exponent

---
 src/mccode_antlr/common/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 7e688eb..7af02fa 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -207,6 +207,8 @@ def _is_loose(x):
 
 
 def _is_product(x, ops=('*', '/', '//')):
+    if isinstance(x, UnaryOp) and x.op == '-' and len(x.value) == 1:
+        return _is_product(x.value[0], ops)  # printed as, e.g., -a * b
     return isinstance(x, BinaryOp) and x.op in ops
 
 
-- 
2.43.0


From e96848027aa2c8642f8e24596710d221ea54b59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 014/158] fix: a copied operation keeps its type and style

---
 src/mccode_antlr/common/expression.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 7af02fa..4dbae15 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -230,6 +230,11 @@ class Op:
     def __hash__(self):
         return hash(str(self))
 
+    def _copied(self, new):
+        # the type (and style) could have been set after this operation was made
+        new.data_type, new.style = self.data_type, self.style
+        return new
+
     def __int__(self):
         raise RuntimeError('No conversion to int for operations')
 
@@ -416,7 +421,7 @@ class TrinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.first, self.second, self.third))
 
     def copy(self):
-        return TrinaryOp(self.op, *[[x.copy() for x in y] for y in (self.first, self.second, self.third)])
+        return self._copied(TrinaryOp(self.op, *[[x.copy() for x in y] for y in (self.first, self.second, self.third)]))
 
     def __contains__(self, value):
         # first, second, and third are lists, so we need to check each element to avoid using __eq__
@@ -581,7 +586,7 @@ class BinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.left, self.right))
 
     def copy(self):
-        return BinaryOp(self.op, [x.copy() for x in self.left], [x.copy() for x in self.right])
+        return self._copied(BinaryOp(self.op, [x.copy() for x in self.left], [x.copy() for x in self.right]))
 
     def __contains__(self, value):
         # left and right are lists, so we need to check each element to avoid using __eq__
@@ -686,7 +691,7 @@ class UnaryOp(Op):
         return any(x.depends_on(name) for x in self.value)
 
     def copy(self):
-        return UnaryOp(self.op, [x.copy() for x in self.value])
+        return self._copied(UnaryOp(self.op, [x.copy() for x in self.value]))
 
     def __contains__(self, value):
         # value is a list
-- 
2.43.0


From 47e89fefdb40317c6b646edb5a8a924f40c2eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 015/158] fix: negative zero raised to a power is printed in
 parentheses

---
 src/mccode_antlr/common/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 4dbae15..7a7be61 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -214,7 +214,7 @@ def _is_product(x, ops=('*', '/', '//')):
 
 def _is_negative(x):
     if isinstance(x, Value):
-        return isinstance(x.value, (int, float)) and x.value < 0
+        return isinstance(x.value, (int, float)) and str(x.value).startswith('-')  # -0.0 too
     return isinstance(x, UnaryOp) and x.op == '-'
 
 
-- 
2.43.0


From 7bd6dbf66587d6879a3c153e1372add28d13c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 016/158] fix: ROTATED ABSOLUTE is absolute even if AT is
 RELATIVE

---
 src/mccode_antlr/instr/instance.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index e436a05..a8011cc 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -101,12 +101,11 @@ class Instance:
             ar, rr = self.at_relative, self.rotate_relative
             if not isinstance(ar[0], Vector) or not isinstance(rr[0], Angles):
                 logger.warning(f'Expected {ar=} and {rr=} to be Vector and Angles respectively')
-            if rr[1] is None and ar[1] is not None:
-                logger.warning(f'Expected rotation reference to be specified when at reference is specified')
             at = ar[0] if isinstance(ar[0], Vector) else Vector(*ar[0])
-            an, ar = (ar[1].name, ar[1].orientation) if ar[1] else ("ABSOLUTE", None)
+            ar = ar[1].orientation if ar[1] else None
             rt = rr[0] if isinstance(rr[0], Angles) else Angles(*rr[0])
-            rn, rr = (rr[1].name, rr[1].orientation) if rr[1] else (an, ar)
+            # no reference is ABSOLUTE, even if the position is RELATIVE to another component instance
+            rr = rr[1].orientation if rr[1] else None
             self.orientation = Orient.from_dependent_orientations(ar, at, rr, rt)
         # check if the defining component is marked noacc, in which case this _is_ cpu only
         if not self.type.acc:
-- 
2.43.0


From afa80485eed9886d4e11c49dfcea558974134429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 017/158] fix: the sine of -90 degrees is -1, not that of 180
 degrees

---
 src/mccode_antlr/instr/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 1cf52fc..09c4483 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -351,7 +351,7 @@ def sin_value(v: Expr, degrees=True):
     pi = Expr.float(pi) if v.is_constant else Expr.id('PI')
     if (degrees and v.is_value(Expr.float(90))) or (not degrees and v.is_value(pi / Expr.float(2))):
         return Expr.float(1)
-    if (degrees and v.is_value(Expr.float(180))) or (not degrees and v.is_value(-pi / Expr.float(2))):
+    if (degrees and v.is_value(Expr.float(-90))) or (not degrees and v.is_value(-pi / Expr.float(2))):
         return Expr.float(-1)
     return unary_expr(sin_degree if degrees else sin, 'sin', v)
 
-- 
2.43.0


From 8b34f07df234893379e192f1c190585e905738e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 018/158] fix: a reduced rotation given in radians uses its
 angle in radians

---
 src/mccode_antlr/instr/orientation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 09c4483..d841efc 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -634,8 +634,7 @@ class RotationPart(Part):
         return self.rotation_axis, self.v, 'degrees' if self.degrees else 'radian'
 
     def _cos_sin_one_zero(self):
-        r = self.v if self.degrees else degree_to_radian(self.v)
-        return cos_value(r), sin_value(r), Expr.float(1), Expr.float(0)
+        return cos_value(self.v, self.degrees), sin_value(self.v, self.degrees), Expr.float(1), Expr.float(0)
 
     def position(self, which=None) -> Vector:
         z = Expr.float(0)
-- 
2.43.0


From 355fb6529765dc6923e0cec0bf5e15c8369c44e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 019/158] fix: a coordinate given to the Assembler as the text
 of an expression is parsed

---
 src/mccode_antlr/instr/instr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 0acb67b..34b0815 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -493,7 +493,9 @@ class Instr:
             instance.verify_parameters(self.parameters)
 
     def check_expr(self, expr: int | float | str | Expr | Value):
-        if not isinstance(expr, Expr):
+        if isinstance(expr, str):
+            expr = Expr.parse(expr)
+        elif not isinstance(expr, Expr):
             expr = Expr.best(expr)
         # check whether the expression contains any identifiers which are actually InstrumentParameters
         expr.verify_parameters([x.name for x in self.parameters])
-- 
2.43.0


From 7c4239745f3eb159640718f4f36a6e0548423a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:13 +0000
Subject: [PATCH 020/158] fix: an explicitly ABSOLUTE rotation given to the
 Assembler is absolute

---
 src/mccode_antlr/assembler/assembler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index af2b993..ad44c9c 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -47,6 +47,9 @@ class Assembler:
 
     def _handle_rotate(self, a=None, at_ref=None) -> tuple[Angles, Union[Instance, None]]:
         rot_tuple, ref = self._handle_at_rotate(a)
+        if a is not None and len(a) == 2 and isinstance(a[1], str):
+            # The reference is explicit, None if it is 'ABSOLUTE'
+            return Angles(*rot_tuple), ref
         return Angles(*rot_tuple), ref or at_ref
 
     def component(self, name: str, type_name: str, at=None, rotate=None, parameters=None, **kwargs):
-- 
2.43.0


From 53acd93593e4a0fdf60f82d740a5c1393a3b6459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 021/158] fix: Euler angles of a general rotation rebuild it

---
 src/mccode_antlr/instr/orientation.py | 43 +++++++--------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index d841efc..86cbdfa 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -358,32 +358,7 @@ def sin_value(v: Expr, degrees=True):
 
 def atan2_value(va: Expr, vb: Expr, degrees=True):
     from math import atan2
-    zero = Expr.float(0)
-    full = Expr.float(180) if degrees else Expr.id('PI')
-    half = full / Expr.float(2)
-    if va.is_value(0):
-        if vb.is_op:
-            return [zero, full]
-        return [zero if vb > zero else full]
-    if vb.is_value(0):
-        if va.is_op:
-            return [-half, half]
-        return [half if va > zero else -half]
-    return [binary_expr(atan2_degree if degrees else atan2, 'atan2', va, vb)]
-
-
-def cos_from_sin_value(v: Expr):
-    from ..common import UnaryOp
-    if v.is_value(0):
-        return Expr.float(1)
-    if v.is_value(1):
-        return Expr.float(0)
-    if v.is_op and isinstance(v.expr[0], UnaryOp):
-        if '-' == v.expr[0].op:
-            return cos_from_sin_value(Expr(v.expr[0].value))
-        if 'sin' == v.expr[0].op:
-            return Expr(UnaryOp('cos', v.expr[0].value))
-    return sqrt_value(Expr.float(1) - v * v)
+    return binary_expr(atan2_degree if degrees else atan2, 'atan2', va, vb)
 
 
 def sqrt_value(v: Expr):
@@ -418,12 +393,16 @@ def _rotation_angles_to_axes_coordinates(rotated: Angles, degrees=True):
 
 def axes_euler_angles(m: Rotation, degrees) -> Angles:
     """Return the angles vector which could have been used to produce this 'axes' rotation matrix"""
-    rxs = atan2_value(-m.zy, m.zz, degrees=degrees)
-    rys = atan2_value(m.zx, cos_from_sin_value(m.zx), degrees=degrees)
-    rzs = atan2_value(-m.yx, m.xx, degrees=degrees)
-    rx = rxs[0] if len(rxs) == 1 else rxs[0]
-    ry = rys[0] if len(rys) == 1 else rys[0]
-    rz = rzs[0] if len(rzs) == 1 else rzs[0]
+    zero = Expr.float(0)
+    cos_y = sqrt_value(m.xx * m.xx + m.yx * m.yx)
+    ry = atan2_value(m.zx, cos_y, degrees=degrees)
+    locked = abs(cos_y) < Expr.float(1e-8) if cos_y.is_constant else abs(m.zx).is_value(1)
+    if locked:
+        # Only the sum or difference of the x and z angles is defined if y is +/- 90 degrees
+        return Angles(atan2_value(m.yz, m.yy, degrees=degrees), ry, zero)
+    # adding zero turns -0 into +0, for which a half turn is +180 degrees
+    rx = atan2_value(zero - m.zy, m.zz, degrees=degrees)
+    rz = atan2_value(zero - m.yx, m.xx, degrees=degrees)
     return Angles(rx, ry, rz)
 
 
-- 
2.43.0


From ef5f69d4a82190a625e9c68f29e5821d74a4294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 022/158] fix: the sign of a rotation angle about its axis does
 not depend on rounding

---
 src/mccode_antlr/instr/orientation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 86cbdfa..0d6046e 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -462,11 +462,10 @@ class Part:
         angle = Expr.float(acos_degree(cos_angle))
         axis = Vector(Expr.float(axis[0]), Expr.float(axis[1]), Expr.float(axis[2]))
 
-        # Check that the rotation matrix signs all match:
-        a = axis.cross_matrix()
-        r = Matrix.eye() + a * sin_value(angle, True) + (a * a) * (Expr.float(1) - cos_value(angle, True))
-        # and flip the sign of angle if not:
-        return axis, -angle if any(flat[index] * r[index] < Expr.float(0) for index in range(9)) else angle, 'degrees'
+        # The antisymmetric part of the matrix is A sin(angle), flip the sign of the angle if it does not match the axis
+        sin_axis = (matrix[2][1] - matrix[1][2], matrix[0][2] - matrix[2][0], matrix[1][0] - matrix[0][1])
+        opposed = sum([a.value * s for a, s in zip(axis, sin_axis)]) < 0
+        return axis, -angle if opposed else angle, 'degrees'
 
     def __str__(self):
         x = [f'{x}' for x in self._axes]
-- 
2.43.0


From ab4a97fa5ff0393fe223437c14890c4bbfca4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 023/158] fix: a section restated in a copied component
 definition replaces the copied one

---
 src/mccode_antlr/comp/visitor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 1eb543a..2f04e11 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -37,6 +37,12 @@ class CompVisitor(McCompVisitor):
         # add parameters, overwrite all provided details
         if ctx.NoAcc() is not None:
             self.state.no_acc()
+        # a section stated here replaces the one of the copied definition
+        for section, stated in (('share', ctx.share()), ('user', ctx.uservars()), ('declare', ctx.declare()),
+                                ('initialize', ctx.initialise()), ('trace', ctx.component_trace()),
+                                ('save', ctx.save()), ('final', ctx.finally_()), ('display', ctx.display())):
+            if stated is not None:
+                setattr(self.state, section, ())
         self.visitChildren(ctx)  # Use the visitor methods to overwrite details of the state
 
     def visitCategory(self, ctx: Parser.CategoryContext):
-- 
2.43.0


From 43b64110cddbb1fdae4861088838eee0d6eca20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 024/158] fix: a component category can be an identifier

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 2f04e11..d993696 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -47,7 +47,7 @@ class CompVisitor(McCompVisitor):
 
     def visitCategory(self, ctx: Parser.CategoryContext):
         # Return the provided identifier or string literal, minus quotes
-        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifer())
+        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifier())
 
     def visitTraceBlock(self, ctx: Parser.TraceBlockContext):
         self.state.TRACE(self.visit(ctx.unparsed_block()))
-- 
2.43.0


From 7f489224efc819c10655499e6768a7e1d973a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 025/158] fix: int array component parameters can be parsed

---
 src/mccode_antlr/comp/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index d993696..343d9bf 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -127,12 +127,12 @@ class CompVisitor(McCompVisitor):
     def visitComponentParameterIntegerArray(self, ctx: Parser.ComponentParameterIntegerArrayContext):
         from ..common import Value, DataType, ShapeType
         name = str(ctx.Identifier(0))
-        if ctx.assign() is not None and ctx.initializerlist() is not None:
+        if ctx.Assign() is not None and ctx.initializerlist() is not None:
             value = self.visit(ctx.initializerlist())
             value.data_type = DataType.int
         else:
             default = None
-            if ctx.assign() is not None:
+            if ctx.Assign() is not None:
                 default = "NULL"
                 if ctx.Identifier(1) is not None:
                     default = str(ctx.Identifier(1))
-- 
2.43.0


From 4446d5183c2e21b5af900e11f20373206496e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 026/158] fix: a dependency which ends in an escaped quote
 keeps it

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 343d9bf..1b0e9c1 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -142,7 +142,7 @@ class CompVisitor(McCompVisitor):
     def visitDependency(self, ctx: Parser.DependencyContext):
         if ctx.StringLiteral() is not None:
             # the flags are the literal string without its quotes:
-            self.parent.add_c_flags(str(ctx.StringLiteral()).strip('"'))
+            self.parent.add_c_flags(str(ctx.StringLiteral())[1:-1])
 
     def visitDeclareBlock(self, ctx: Parser.DeclareBlockContext):
         self.state.DECLARE(self.visit(ctx.unparsed_block()))
-- 
2.43.0


From f692e548528f81d5f06091286e19387442558697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 027/158] fix: an initializer list can contain operations

---
 src/mccode_antlr/common/visitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 2be803c..a89f618 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -107,7 +107,9 @@ def visitExpressionBinaryRightShift(obj, ctx):
 
 def visitInitializerlist(obj, ctx):
     # `ctx.values` is not exposed by speedy-antlr-tool
-    values = [obj.visit(x).expr[0].value for x in ctx.expr()]
+    values = [obj.visit(x).expr[0] for x in ctx.expr()]
+    # the value of an identifier is its name, and that of an operation is its text
+    values = [x.value if isinstance(x, Value) else str(x) for x in values]
     return Expr(Value(values, object_type=ObjectType.initializer_list, shape_type=ShapeType.vector))
 
 def visitExpressionUnaryLogic(obj, ctx):
-- 
2.43.0


From deddfb2cf3c52ccf24c954831f06d54b90333e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 028/158] fix: MYSELF in a component definition is the name of
 the instance

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 1b0e9c1..245a0e9 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -257,7 +257,7 @@ class CompVisitor(McCompVisitor):
 
     def visitExpressionMyself(self, ctx: Parser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.instance.name)
+        return Expr.str(self.instance_name)
 
 
 add_common_visitors(CompVisitor)
\ No newline at end of file
-- 
2.43.0


From 0043c25247bdff304e1e816479dc6aa1191e6c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 029/158] fix: files of an in-memory registry have a path

---
 src/mccode_antlr/reader/registry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 8ff0fc5..4566780 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -386,6 +386,13 @@ class InMemoryRegistry(Registry):
             return True
         return False
 
+    def path(self, name: str, ext: str | None = None) -> Path:
+        full_name = self.fullname(name, ext=ext)
+        if full_name is None:
+            raise KeyError(f'InMemoryRegistry does not know of {name if ext is None else name + ext}')
+        # there is no such file, but messages and #line directives need its name
+        return Path(self.root).joinpath(full_name)
+
     def contents(self, name: str, ext: str | None = None):
         full_name = self.fullname(name, ext=ext)
         if full_name is not None and full_name in self.components:
-- 
2.43.0


From cb2a8df57c079bc879161fbfa54ab29259fc3023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 030/158] fix: the category of a component which is not in a
 folder is not its file name

---
 src/mccode_antlr/reader/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index c9c35da..1d56b45 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -132,7 +132,8 @@ class Reader:
             fullname = self.fullname(name, ext='.comp', strict=True)
             fullname = fullname if isinstance(fullname, Path) else Path(fullname)
             # if fullname is an absolute path, it comes from a local repository -- so we don't know what to do
-            res.category = 'UNKNOWN' if fullname.is_absolute() else fullname.parts[0]
+            # and without a folder, the first part is only the name of the file
+            res.category = 'UNKNOWN' if fullname.is_absolute() or len(fullname.parts) < 2 else fullname.parts[0]
         self.components[name] = res
 
     def get_component(self, name: str, current_instance_name=None):
-- 
2.43.0


From 20f465fc96c993a1f380a142d8541ec61a12f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 031/158] fix: JUMP PREVIOUS(n) and JUMP NEXT(n) can be parsed

---
 src/mccode_antlr/instr/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index e6e68d8..d9e06d1 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -238,14 +238,14 @@ class InstrVisitor(McInstrVisitor):
 
     def visitJumpPrevious(self, ctx: McInstrParser.JumpPreviousContext):
         i = ctx.IntegerLiteral()
-        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(i))
+        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(str(i)))
 
     def visitJumpMyself(self, ctx: McInstrParser.JumpMyselfContext):
         return "MYSELF", 0
 
     def visitJumpNext(self, ctx: McInstrParser.JumpNextContext):
         i = ctx.IntegerLiteral()
-        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(i))
+        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(str(i)))
 
     def visitJumpIdentifier(self, ctx: McInstrParser.JumpIdentifierContext):
         return str(ctx.Identifier()), 0
-- 
2.43.0


From e732fc8381a68ca89f230b8acce6bdee2255918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:38 +0000
Subject: [PATCH 032/158] fix: PREVIOUS and MYSELF in an expression are the
 (quoted) name of an instance

---
 src/mccode_antlr/comp/visitor.py  | 2 +-
 src/mccode_antlr/instr/visitor.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 245a0e9..6dfc4af 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -257,7 +257,7 @@ class CompVisitor(McCompVisitor):
 
     def visitExpressionMyself(self, ctx: Parser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.instance_name)
+        return Expr.str(f'"{self.instance_name}"')
 
 
 add_common_visitors(CompVisitor)
\ No newline at end of file
diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index d9e06d1..0bbd5fa 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -371,14 +371,14 @@ class InstrVisitor(McInstrVisitor):
     def visitExpressionPrevious(self, ctx: McInstrParser.ExpressionPreviousContext):
         # The very-special no-good expression use of PREVIOUS where it is replaced by the last component's name
         if len(self.state.components):
-            return Expr.str(self.state.components[-1].name)
+            return Expr.str(f'"{self.state.components[-1].name}"')
         elif self.destination is not None and len(self.destination.components):
-            return Expr.str(self.destination.components[-1].name)
+            return Expr.str(f'"{self.destination.components[-1].name}"')
         raise RuntimeError('PREVIOUS keyword used in expression before any components defined')
 
     def visitExpressionMyself(self, ctx: McInstrParser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.current_instance.name)
+        return Expr.str(f'"{self.current_instance_name}"')
 
 
 class InstrParametersVisitor(McInstrVisitor):
-- 
2.43.0


From 7953be0caf31a0376f30d7259e35ad898d5fc9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:38 +0000
Subject: [PATCH 033/158] fix: reading the parameters of an instrument does not
 read its components

---
 src/mccode_antlr/instr/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 0bbd5fa..e7e3d69 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -393,7 +393,7 @@ class InstrParametersVisitor(McInstrVisitor):
 
     def visitInstrument_definition(self, ctx: McInstrParser.Instrument_definitionContext):
         self.state.name = str(ctx.Identifier())
-        self.visitChildren(ctx)
+        self.visit(ctx.instrument_parameters())
 
     def visitInstrument_parameters(self, ctx: McInstrParser.Instrument_parametersContext):
         for param in ctx.instrument_parameter():
-- 
2.43.0


From 51ca7aef8330d2d7e4bc6c7ab3d4291417923673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:38 +0000
Subject: [PATCH 034/158] fix: SHELL and SEARCH SHELL run the command they
 state

---
 src/mccode_antlr/instr/visitor.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index e7e3d69..c9abd55 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -348,17 +348,16 @@ class InstrVisitor(McInstrVisitor):
 
     def visitShell(self, ctx: McInstrParser.ShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split(' ')
-        run(args, shell=True, check=True)
+        # with shell=True the command is one string, without the quotes of the literal
+        run(str(ctx.StringLiteral())[1:-1], shell=True, check=True)
 
     def visitSearchPath(self, ctx: McInstrParser.SearchPathContext):
         self.parent.handle_search_keyword(str(ctx.StringLiteral()))
 
     def visitSearchShell(self, ctx: McInstrParser.SearchShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split()
-        res = run(args, shell=True, capture_output=True, check=True)
-        for specs in res.stdout.decode().split('\n'):
+        res = run(str(ctx.StringLiteral())[1:-1], shell=True, capture_output=True, check=True)
+        for specs in filter(str.strip, res.stdout.decode().split('\n')):
             self.parent.handle_search_keyword(specs)
 
     # TODO Make this and the identical list of visitors in comp/visitor.py a single definition ... somehow
-- 
2.43.0


From 404c98f5080aa1212297a292659174f9839edeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:38 +0000
Subject: [PATCH 035/158] fix: a SEARCH path is used without its quotation
 marks

---
 src/mccode_antlr/instr/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index c9abd55..5b7c977 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -352,7 +352,7 @@ class InstrVisitor(McInstrVisitor):
         run(str(ctx.StringLiteral())[1:-1], shell=True, check=True)
 
     def visitSearchPath(self, ctx: McInstrParser.SearchPathContext):
-        self.parent.handle_search_keyword(str(ctx.StringLiteral()))
+        self.parent.handle_search_keyword(str(ctx.StringLiteral())[1:-1])
 
     def visitSearchShell(self, ctx: McInstrParser.SearchShellContext):
         from subprocess import run
-- 
2.43.0


From 062c438831ef0c98c3939c956711fdf56f15f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:38 +0000
Subject: [PATCH 036/158] fix: the DEPENDENCY flags of an instrument, or of one
 it includes, are not lost

---
 src/mccode_antlr/instr/visitor.py | 2 ++
 src/mccode_antlr/reader/reader.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 5b7c977..f7fb13d 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -104,6 +104,8 @@ class InstrVisitor(McInstrVisitor):
         for instance in instr.components:
             if not instance.removable:
                 self.state.add_component(instance)
+        # the DEPENDENCY strings of its components are collected by their reader
+        self.state.flags += instr.flags
         # Group membership is determined after all parsing, so nothing to do here
 
     def visitComponent_instance(self, ctx: McInstrParser.Component_instanceContext):
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index 1d56b45..d06d85d 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -171,6 +171,8 @@ class Reader:
         if not isinstance(res, Instr):
             raise RuntimeError(f'Parsing instrument file {filename} did not produce an Instr object')
         res.source = filename
-        res.flags = tuple(self.c_flags)
+        if destination is None:
+            # an included instrument has only its own flags, those of all components are added to its destination
+            res.flags += tuple(self.c_flags)
         res.registries = tuple(self.registries)
         return res
-- 
2.43.0


From c26fb307108674c382fbdec8a82160312d8aec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 037/158] fix: a parameter whose default is an operation can be
 given a value

---
 src/mccode_antlr/common/expression.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 7a7be61..35acf23 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -235,6 +235,14 @@ class Op:
         new.data_type, new.style = self.data_type, self.style
         return new
 
+    def compatible(self, other, id_ok=False):
+        if isinstance(other, Expr) and other.is_singular:
+            other = other.expr[0]
+        if isinstance(other, Op):
+            return id_ok
+        value = other if isinstance(other, Value) else Value.best(other)
+        return (id_ok and value.is_str) or (self.data_type.compatible(value.data_type) and not value.is_vector)
+
     def __int__(self):
         raise RuntimeError('No conversion to int for operations')
 
-- 
2.43.0


From 80763034bc8ec0e84330f07477eb7b9e5a4cd1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 038/158] fix: a conditional expression can be the value of a
 parameter

---
 src/mccode_antlr/common/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 35acf23..1a44386 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -805,7 +805,7 @@ class Value:
     def compatible(self, other, id_ok=False):
         if isinstance(other, Expr) and other.is_singular:
             other = other.expr[0]
-        if isinstance(other, (UnaryOp, BinaryOp)):
+        if isinstance(other, Op):
             return id_ok
         value = other if isinstance(other, Value) else Value.best(other)
         return (id_ok and value.is_str) or (self.data_type.compatible(value.data_type) and self.shape_type.compatible(value.shape_type))
-- 
2.43.0


From 68927dc79c5000d66518b83a7ed2674f97a7f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:34 +0000
Subject: [PATCH 039/158] fix: a parameter whose default is an operation can be
 given an identifier

---
 src/mccode_antlr/common/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 1a44386..55a2d69 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -223,6 +223,8 @@ def _wrap(string, operands, condition):
 
 
 class Op:
+    shape_type = ShapeType.scalar  # unless it is used as the value of a vector
+
     def __init__(self):
         self.data_type = DataType.undefined
         self.style = 'C'  # there should be a better way to do this
-- 
2.43.0


From 3f56a9cf4290a117b224625743ed6e66adf6bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 040/158] fix: a component parameter which is stated twice has
 only the value it keeps

---
 src/mccode_antlr/instr/instance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index a8011cc..5a46d5d 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -123,6 +123,7 @@ class Instance:
                 if par.value != value:
                     logger.info(f'  first-encountered value {par.value} retained')
                     logger.info(f'  newly-encountered value {value} dropped')
+                return
             else:
                 raise RuntimeError(f"Multiple definitions of {name} in component instance {self.name}")
         p = self.type.get_parameter(name)
-- 
2.43.0


From e3da53e02302ab6378d4e897ea0a5198a80ba686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:57 +0000
Subject: [PATCH 041/158] fix: SPLIT and REMOVABLE are printed

---
 src/mccode_antlr/instr/instance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 5a46d5d..1ef62af 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -38,8 +38,12 @@ class Instance:
         return f'Instance({self.name}, {self.type.name})'
 
     def to_file(self, output, wrapper=None, full=True):
+        if self.removable:
+            print(wrapper.line('REMOVABLE', []), file=output, end='')
         if self.cpu:
             print(wrapper.line('CPU', []), file=output, end='')
+        if self.split is not None:
+            print(wrapper.line('SPLIT', [wrapper.escape(str(self.split))]), file=output, end=' ')
 
         instance_parameters = wrapper.hide(', '.join(p.to_string(wrapper=wrapper) for p in self.parameters))
         line = wrapper.bold('COMPONENT') + f' {self.name} = {self.type.name}({instance_parameters}) '
-- 
2.43.0


From c27dc2d948c9bb3dc960facab3d47e5b1a46aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 042/158] fix: an ABSOLUTE null rotation is printed if AT is
 RELATIVE

---
 src/mccode_antlr/instr/instance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 1ef62af..6d78c9f 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -58,7 +58,8 @@ class Instance:
 
         # The "AT ..." statement is required even when it is "AT (0, 0, 0) ABSOLUTE"
         line += rf('AT', self.at_relative, required=True) + ' '
-        line += rf('ROTATED', self.rotate_relative) + wrapper.br()
+        # Without "ROTATED ..." the rotation is relative to the reference of "AT ..."
+        line += rf('ROTATED', self.rotate_relative, required=self.at_relative[1] is not None) + wrapper.br()
         print(line, file=output, end='')
 
         if not full:
-- 
2.43.0


From 01654b4aa70a05a383923c09cba281277b36fcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 043/158] fix: a jump is printed with the name of its target

---
 src/mccode_antlr/instr/jump.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 261b35a..93c5fb1 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -11,13 +11,14 @@ class Jump:
     absolute_target: int = -1
 
     def to_file(self, output, wrapper):
-        # self.target is one of "PREVIOUS", "PREVIOUS_{i}, "MYSELF", "MYSELF_{i}, "NEXT",
+        from re import fullmatch
+        # self.target is one of "PREVIOUS", "PREVIOUS_{i}, "MYSELF", "NEXT", "NEXT_{i}",
         # or "{component instance identifier}"
         jump_name = self.target
-        if '_' in jump_name and (jump_name.startswith('PREVIOUS') or jump_name.startswith('NEXT')):
+        if fullmatch(r'(PREVIOUS|NEXT)(_\d+)?', jump_name):
             jump_name = jump_name.split('_')[0]
-        if abs(self.relative_target) > 1:
-            jump_name += f' ({abs(self.relative_target)})'
+            if abs(self.relative_target) != 1:
+                jump_name += f' ({abs(self.relative_target)})'
         when_iter = 'ITERATE' if self.iterate else 'WHEN'
         print(wrapper.line('JUMP', [jump_name, when_iter, str(self.condition)]), file=output)
 
-- 
2.43.0


From 176baef4592f7cffb0ee3a004092dd05c19b91c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 044/158] fix: the name and value of metadata are printed so
 that they can be read

---
 src/mccode_antlr/common/textwrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index eee8687..b3dd0fc 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -147,7 +147,9 @@ class TextWrapper(BaseWrapper):
 
     @staticmethod
     def metadata_group(name: str, mimetype: str, item: str, value: str) -> str:
-        return f'{name} "{mimetype}" {item} \n%{{\n{value}\n%}}\n'
+        # the name could be a keyword, or already be quoted; the value is data to which nothing should be added
+        quoted = item if item[:1] == '"' else f'"{item}"'
+        return f'{name} "{mimetype}" {quoted} \n%{{{value}%}}\n'
 
     @staticmethod
     def datatype(data_type: str) -> str:
-- 
2.43.0


From 36ded82409b9f1ce0de472743d5829386665f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 045/158] fix: the unit of a parameter is printed as a string
 literal

---
 src/mccode_antlr/common/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index b3dd0fc..b33bd18 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -161,7 +161,7 @@ class TextWrapper(BaseWrapper):
 
     @staticmethod
     def unit(unit: str) -> str:
-        return f'/{unit}'
+        return f'/{unit}' if unit[:1] == '"' else f'/"{unit}"'
 
     @staticmethod
     def value(value: str) -> str:
-- 
2.43.0


From e4106d82013edb3e93cf8acdfa3535a08c0973fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 046/158] fix: a default value which is an operation is printed

---
 src/mccode_antlr/common/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/parameters.py b/src/mccode_antlr/common/parameters.py
index 0c9f9c6..3fd554b 100644
--- a/src/mccode_antlr/common/parameters.py
+++ b/src/mccode_antlr/common/parameters.py
@@ -21,7 +21,7 @@ class InstrumentParameter:
         line = wrapper.datatype(line) + wrapper.parameter(self.name)
         if self.unit is not None:
             line += wrapper.unit(self.unit)
-        if self.value.has_value:
+        if self.value.has_value or not self.value.is_constant:
             line += "=" + wrapper.value(self.value)
         print(line, file=output)
 
-- 
2.43.0


From 7cd2ad494c8a38ef9d85b0539408de7debb81343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:49 +0000
Subject: [PATCH 047/158] fix: a vector is printed as an initializer list

---
 src/mccode_antlr/common/expression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 55a2d69..5fb32f4 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -782,9 +782,11 @@ class Value:
     def special_str(self, prefix=None):
         if prefix is None:
             prefix = "_instrument_var._parameters."
-        return f'{prefix}{self.value}' if self.is_parameter else f'{self.value}'
+        return f'{prefix}{self.value}' if self.is_parameter else self._str_repr_()
 
     def _str_repr_(self):
+        if isinstance(self.value, (list, tuple)):
+            return '{' + ', '.join(str(x) for x in self.value) + '}'
         return str(self.value)
 
     def __str__(self):
-- 
2.43.0


From 898c37bc0d4c571c9b8dd10305e7903dea9287ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 048/158] fix: what follows the placement of an instance is
 printed on a new line

---
 src/mccode_antlr/common/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index b33bd18..46fb730 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -209,7 +209,7 @@ class TextWrapper(BaseWrapper):
 
     @staticmethod
     def br() -> str:
-        return ''
+        return '\n'
 
     @staticmethod
     def hide(content: str) -> str:
-- 
2.43.0


From 621b37161fd1417bd9f7d7b5cf419e822bd6ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 049/158] fix: groups are determined afresh from the component
 instances

---
 src/mccode_antlr/instr/instr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 34b0815..06fb438 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -198,6 +198,7 @@ class Instr:
         self.metadata += (m,)
 
     def determine_groups(self):
+        self.groups = {}
         for id, inst in enumerate(self.components):
             if inst.group:
                 if inst.group not in self.groups:
-- 
2.43.0


From 836ade3fc2c1251a2e05d4e31db7c051890d1726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 050/158] fix: the groups of an assembled instrument are
 determined

---
 src/mccode_antlr/assembler/assembler.py | 1 +
 src/mccode_antlr/translators/target.py  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index ad44c9c..9ec505d 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -89,6 +89,7 @@ class Assembler:
                             at_relative=(at, ref), rotate_relative=self._handle_rotate(rotate, ref),
                             **kwargs)
         self.instrument.add_component(instance)
+        self.instrument.determine_groups()
         if isinstance(parameters, dict):
             instance.set_parameters(**parameters)
         return instance
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index d2d4f1c..2cdf056 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -29,6 +29,8 @@ class TargetVisitor:
         self.ok_to_skip = None
         #
         self.source.verify_instance_parameters()
+        # The instances can have been assigned to groups, or (re)moved, after they were added to the instrument
+        self.source.determine_groups()
         self.__post_init__()
 
     def __init_subclass__(cls, **kwargs):
-- 
2.43.0


From eba2194fb746e355031a72cf130fb134dcea1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 051/158] fix: an instrument parameter assembled with a float
 is a float

---
 src/mccode_antlr/assembler/assembler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index 9ec505d..638ba18 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -124,6 +124,9 @@ class Assembler:
                     value, unit = value
                 else:
                     unit = ''
+                if isinstance(value, float):
+                    # also if it happens to be a whole number
+                    value = Expr.float(value)
                 value = InstrumentParameter(name, unit, value if isinstance(value, Expr) else Expr.best(value))
             self.instrument.add_parameter(value)
 
-- 
2.43.0


From 19920028555fbbbfc556794982211a5a25085b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 052/158] fix: a condition or count given to the assembler as
 text is parsed

---
 src/mccode_antlr/assembler/assembler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index 638ba18..ccddfa5 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -84,6 +84,9 @@ class Assembler:
             unique_flags = list(self.instrument.flags)
             unique_flags.extend(self.reader.c_flags)
             self.instrument.flags = tuple(dict.fromkeys(unique_flags))
+        for key in ('when', 'split'):
+            if isinstance(kwargs.get(key), str):
+                kwargs[key] = Expr.parse(kwargs[key])
         at, ref = self._handle_at(at)
         instance = Instance(name, comp_type,
                             at_relative=(at, ref), rotate_relative=self._handle_rotate(rotate, ref),
-- 
2.43.0


From 042dcedeeef974bc79edd76c3ae9afab9ad8758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 053/158] fix: NULL can be given as the value of a parameter

---
 src/mccode_antlr/instr/instance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 6d78c9f..75fe0c2 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -141,7 +141,8 @@ class Instance:
             # FIXME can this be more general? Do we _need_ to treat vectors differently?
             value = Expr(Value(value, data_type=p.value.data_type, shape_type=p.value.shape_type))
         elif isinstance(value, str):
-            value = Expr.parse(value)
+            # NULL is a value for a parameter, but is not an expression
+            value = Expr.str('NULL') if value.strip() == 'NULL' else Expr.parse(value)
         elif not isinstance(value, Expr):
             # Copy the data_type of the component definition parameter
             # -- thus if value is a str but an int or float is expected, we will know it is an identifier
-- 
2.43.0


From 1c40a33756b2991c0aa5ea37d9f69534d4057e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 054/158] fix: metadata of an assembled instrument is from this
 instrument

---
 src/mccode_antlr/assembler/assembler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index ccddfa5..6dfc543 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -173,6 +173,8 @@ class Assembler:
 
     def metadata(self, name: str, mimetype: str, value: str, source=None):
         from mccode_antlr.common.metadata import MetaData
+        if source is None:
+            source = self.instrument.name
         self.instrument.add_metadata(MetaData.from_instrument_tokens(source, mimetype, name, value))
 
 
-- 
2.43.0


From 3870a220c92a78a0d66436cb024e5d8269108514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 055/158] fix: the metadata of a copied instance is from the
 copy

---
 src/mccode_antlr/instr/instance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 75fe0c2..94c9f8e 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -98,7 +98,8 @@ class Instance:
                    when=ref.when, group=ref.group,
                    extend=tuple([ext for ext in ref.extend]),
                    jump=tuple([jmp for jmp in ref.jump]),
-                   metadata=tuple([md for md in ref.metadata]),
+                   metadata=tuple([MetaData.from_instance_tokens(name, md.mimetype, md.name, md.value)
+                                   for md in ref.metadata]),
                    mode=ref.mode)
 
     def __post_init__(self):
-- 
2.43.0


From ec2609d64617f3219aa1440726a9c76864cdc377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 056/158] fix: instrument parameters are usable in an
 instrument SAVE section

---
 src/mccode_antlr/translators/c_save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_save.py b/src/mccode_antlr/translators/c_save.py
index b4eeb49..4fdcd61 100644
--- a/src/mccode_antlr/translators/c_save.py
+++ b/src/mccode_antlr/translators/c_save.py
@@ -22,7 +22,7 @@ def cogen_save(source, declared_parameters):
         ])
         for par in source.parameters:
             # ensure there's no conflict of names
-            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name}')
+            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name})')
         for block in source.save:
             lines.append(block.to_c())
         for par in source.parameters:
-- 
2.43.0


From a534f476d43ddf665a69e8a78f5f02a2f46367cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 057/158] fix: a component is placed relative to the last one
 whose transformation is done

---
 src/mccode_antlr/translators/c_initialise.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index d0582ea..492b56a 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -36,7 +36,7 @@ def _split_xyz_ref(xyz_ref):
 
 
 def cogen_comp_init_position(index, comp, last, instr):
-    ref = None if index == 0 else instr.components[last]
+    ref = None if last is None else instr.components[last]
     var = f'_{comp.name}_var'
     lines = [
         f'  /* component {comp.name}={comp.type.name}() AT ROTATED */',
@@ -62,7 +62,7 @@ def cogen_comp_init_position(index, comp, last, instr):
             f'    rot_mul(tr1, _{rel.name}_var._rotation_absolute, {var}._rotation_absolute);'
         ])
     # Sort out relative orientation
-    if index == 0:
+    if ref is None:
         lines.append(f'    rot_copy({var}._rotation_relative, {var}._rotation_absolute);')
     else:
         lines.extend([
@@ -84,7 +84,7 @@ def cogen_comp_init_position(index, comp, last, instr):
             '    tc2 = rot_apply(tr1, tc1);',
             f'    {var}._position_absolute = coords_add(_{rel.name}_var._position_absolute, tc2);'
         ])
-    if index == 0:
+    if ref is None:
         lines.append(f'    tc1 = coords_neg({var}._position_absolute);')
     else:
         lines.append(f'    tc1 = coords_sub(_{ref.name}_var._position_absolute, {var}._position_absolute);')
@@ -230,10 +230,10 @@ def cogen_initialize(source, component_declared_parameters, ok_to_skip):
              "***************************************************************************** */",
              _GETDISTANCE_FCT, ""]
 
-    last = 0
+    last = None
     for idx, comp in enumerate(source.components):
         lines.extend(cogen_comp_setpos(idx, comp, last, source, component_declared_parameters))
-        if ok_to_skip is not None and not ok_to_skip[idx]:
+        if ok_to_skip is None or not ok_to_skip[idx]:
             last = idx
 
     # generate class functions
-- 
2.43.0


From 814a331ba981b5e6712d366e6455b025b367762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 058/158] fix: a group member which does nothing has not
 scattered the particle

---
 src/mccode_antlr/translators/c_raytrace.py | 4 ++++
 src/mccode_antlr/translators/target.py     | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 03adf47..2520bb4 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -81,6 +81,8 @@ def cogen_raytrace(source, ok_to_skip):
                 '      // 2nd or higher GROUP member, "reuse" coordinate-changed _particle_Save from 1st GROUP element.',
                 f'      mccoordschange(_{comp.name}_var._position_relative, _{comp.name}_var._rotation_relative, &_particle_save);',
             ])
+        if comp.group is not None:
+            lines.append('      SCATTERED=0; // what happened in an earlier component does not count')
         if not ok_to_skip[index]:
             lines.extend([
                 f'      DEBUG_COMP(_{comp.name}_var._name);',
@@ -382,6 +384,8 @@ def cogen_funnel(source, ok_to_skip):
                 '        }',
                 "        _particle_save = *_particle;",
             ])
+        if comp.group is not None:
+            lines.append('        SCATTERED=0; // what happened in an earlier component does not count')
         if len(comp.type.trace) or len(comp.extend):
             if comp.when is not None:
                 lines.append(f'    if (({comp.when:p}))  // conditional WHEN')
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 2cdf056..0ec6505 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -205,6 +205,9 @@ class TargetVisitor:
             # Any component with a TRACE or EXTEND can not be skipped
             if any(not x.is_empty for x in comp.extend) or any(not x.is_empty for x in comp.type.trace):
                 return False
+            # The members of a group act on, and transform, the particle saved by its leader
+            if comp.group is not None:
+                return False
             # Any component jumping elsewhere can not be skipped
             if len(comp.jump):
                 return False
-- 
2.43.0


From 596dc11ae4ac1c20531c3fb3845dc02e95394100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 059/158] fix: every counted JUMP has a counter of its own

---
 src/mccode_antlr/translators/c_header.py   |  6 +++---
 src/mccode_antlr/translators/c_raytrace.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index 860b95b..213ae61 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -17,10 +17,10 @@ def header_pre_runtime(
         setstate_signature_members, getstate_signature_members, setstate_signature_call
     )
 
-    def jump_line(instance, jump):
-        return f'long Jump_{instance.name}_{jump.target}; /* the JUMP connection <from>_<to> */'
+    def jump_line(instance, number, jump):
+        return f'long Jump_{instance.name}_{number}; /* the JUMP connection <from>_<number>, to {jump.target} */'
 
-    jump_string = '\n'.join([jump_line(i, j) for i in source.components for j in i.jump if j.iterate])
+    jump_string = '\n'.join([jump_line(i, n, j) for i in source.components for n, j in enumerate(i.jump) if j.iterate])
 
     if is_mcstas:
         particle_struct = '\n'.join([
diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 2520bb4..fb627b2 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -23,8 +23,8 @@ def cogen_raytrace(source, ok_to_skip):
     print("\n-----------------------------------------------------------")
     print("\nGenerating single GPU kernel or single CPU section layout:")
 
-    for name, target in [(c.name, j.target) for c in source.components for j in c.jump if j.iterate]:
-        lines.append(f'  _particle->_logic.Jump_{name}_{target}=0;')
+    for name, number in [(c.name, n) for c in source.components for n, j in enumerate(c.jump) if j.iterate]:
+        lines.append(f'  _particle->_logic.Jump_{name}_{number}=0;')
 
     lines.extend([
         "  _particle->flag_nocoordschange=0; /* Init */",
@@ -98,14 +98,14 @@ def cogen_raytrace(source, ok_to_skip):
                 '        particle_restore(_particle, &_particle_save);'
             ])
         # If we have a JUMP, change the index
-        for jump in comp.jump:
+        for number, jump in enumerate(comp.jump):
             if jump.iterate:
                 lines.extend([
-                    f'      if (++_particle->_logic.Jump_{comp.name}_{jump.target} < {jump.condition:p}) {{ /* test for iteration */',
+                    f'      if (++_particle->_logic.Jump_{comp.name}_{number} < {jump.condition:p}) {{ /* test for iteration */',
                     f'        _particle->_index = {jump.absolute_target};',  # NO -1 despite to ++ below, 0-based target
                     '        _particle->flag_nocoordschange=1; /* pass coordinate transformations when jumping */',
                     '      } else {',
-                    f'        _particle->_logic.Jump_{comp.name}_{jump.target} = 0; /* reset Jump top and go forward */',
+                    f'        _particle->_logic.Jump_{comp.name}_{number} = 0; /* reset Jump top and go forward */',
                     '      }'
                 ])
             else:
-- 
2.43.0


From 175a542c382e9128f4f2fc61b33ed8a25b4694ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 060/158] fix: jump targets follow the components

---
 src/mccode_antlr/translators/target.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 0ec6505..183617f 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -223,16 +223,18 @@ class TargetVisitor:
 
     def set_jump_absolute_targets(self):
         for index, jump in [(i, j) for i, c in enumerate(self.source.components) for j in c.jump]:
-            # jump is a dataclass with 'target', 'index', 'iterate', 'condition', and 'actual_target_index'
-            if jump.absolute_target > -1:
-                # Somewhere/something already set the actual target index -- we don't have a choice but to trust it
-                continue
+            # jump is a dataclass with 'target', 'relative_target', 'iterate', 'condition', and 'absolute_target',
+            # the last of which can be outdated if it was set before components were added or removed
             if jump.relative_target == 0 and jump.target.lower() != 'myself':
                 # the target is another named component:
-                jump.absolute_target = [i for i, c in enumerate(self.source.components) if jump.target == c.name][0]
-                jump.relative_target = jump.absolute_target - index
+                targets = [i for i, c in enumerate(self.source.components) if jump.target == c.name]
+                if len(targets) != 1:
+                    raise RuntimeError(f'{self.source.name} has no component {jump.target} to JUMP to')
+                jump.absolute_target = targets[0]
             else:
                 jump.absolute_target = index + jump.relative_target
+            if jump.absolute_target < 0 or jump.absolute_target >= len(self.source.components):
+                raise RuntimeError(f'JUMP {jump.target} leads out of {self.source.name}')
 
     def enter_trace(self):
         pass
-- 
2.43.0


From b8a77eca605d682aa0a171446c703f6df9fb8d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 061/158] fix: funnel mode transforms the particle past skipped
 components and restores it within a group

---
 src/mccode_antlr/translators/c_raytrace.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index fb627b2..ad01a0e 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -370,7 +370,6 @@ def cogen_funnel(source, ok_to_skip):
 
         lines.extend([
             f'      // {comp.name}',
-            f'      if (!ABSORBED && _particle->_index == {index+1}) {{',
         ])
         if not ok_to_skip[index]:
             lines.extend([
@@ -382,8 +381,10 @@ def cogen_funnel(source, ok_to_skip):
                 "        {",
                 f"          mccoordschange(_{comp.name}_var._position_relative, _{comp.name}_var._rotation_relative, _particle);",
                 '        }',
-                "        _particle_save = *_particle;",
             ])
+        lines.append(f'      if (!ABSORBED && _particle->_index == {index+1}) {{')
+        if not ok_to_skip[index]:
+            lines.append("        _particle_save = *_particle;")
         if comp.group is not None:
             lines.append('        SCATTERED=0; // what happened in an earlier component does not count')
         if len(comp.type.trace) or len(comp.extend):
@@ -402,16 +403,16 @@ def cogen_funnel(source, ok_to_skip):
             ln = group.last.name
             lid = group.last_id
             lines.extend([
-                f'    // GROUP {group.name}: from {group.first.name} [{group.first_id}] to {ln} [{lid}]',
+                f'    // GROUP {group.name}: from {group.first.name} [{group.first_id}] to {ln} [{1+lid}]',
                 # Skip over when SCATTERED in the group:
-                f'    if (SCATTERED) _particle->_index = {lid}; '
+                f'    if (SCATTERED) _particle->_index = {1+lid}; '
                 '// when SCATTERED in GROUP: reach exit of GROUP after {ln}',
                 #
             ])
             if index == lid:
                 lines.append('    else ABSORBED=1; // Not SCATTERED by end of GROUP: removes left events')
             else:
-                lines.append("      else ABSORBED=0; // not SCATTERED within GROUP: always tries next")
+                lines.append('      else particle_restore(_particle, &_particle_save); // not SCATTERED in GROUP: tries next')
 
         lines.append("        _particle->_index++;")
         lines.append("      }")
-- 
2.43.0


From bee8e41f126bc1f416c8cd6f9984cce50c314dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 062/158] fix: copies of an instance have JUMPs of their own

---
 src/mccode_antlr/instr/instance.py | 5 +++--
 src/mccode_antlr/instr/jump.py     | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 94c9f8e..e4c3fe2 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -97,7 +97,7 @@ class Instance:
                    parameters=tuple([par for par in ref.parameters]),
                    when=ref.when, group=ref.group,
                    extend=tuple([ext for ext in ref.extend]),
-                   jump=tuple([jmp for jmp in ref.jump]),
+                   jump=tuple([jmp.copy() for jmp in ref.jump]),
                    metadata=tuple([MetaData.from_instance_tokens(name, md.mimetype, md.name, md.value)
                                    for md in ref.metadata]),
                    mode=ref.mode)
@@ -235,7 +235,8 @@ class Instance:
         return Instance(self.name, self.type, self.at_relative, self.rotate_relative,
                         orientation=self.orientation, parameters=self.parameters,
                         removable=self.removable, cpu=self.cpu, split=self.split, when=self.when,
-                        group=self.group, extend=self.extend, jump=self.jump, metadata=self.metadata)
+                        group=self.group, extend=self.extend, jump=tuple(jmp.copy() for jmp in self.jump),
+                        metadata=self.metadata, mode=self.mode)
 
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 93c5fb1..4429371 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -22,5 +22,8 @@ class Jump:
         when_iter = 'ITERATE' if self.iterate else 'WHEN'
         print(wrapper.line('JUMP', [jump_name, when_iter, str(self.condition)]), file=output)
 
+    def copy(self):
+        return Jump(self.target, self.relative_target, self.iterate, self.condition, self.absolute_target)
+
     def __contains__(self, value):
         return value in self.condition
-- 
2.43.0


From 48c3204bd6c332c963c10c39e8d919761d0c97e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:40 +0000
Subject: [PATCH 063/158] fix: an instrument without components has a valid
 funnel mode

---
 src/mccode_antlr/translators/c_raytrace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index ad01a0e..ee24435 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -418,8 +418,9 @@ def cogen_funnel(source, ok_to_skip):
         lines.append("      }")
         cpu_last = comp.cpu
 
+    if len(source.components):
+        lines.append('    }')
     lines.extend([
-        '    }',
         "    // jump to next viable seed",
         "    seed = seed + gpu_innerloop;",
         "  } // outer loop / particle batches",
-- 
2.43.0


From 605471f0bd6f894be549a6d23786265cd7fa4119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:58 +0000
Subject: [PATCH 064/158] fix: an instrument parameter without a default has
 none in the simulation

---
 src/mccode_antlr/translators/c_decls.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 65c713e..61ba260 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -72,7 +72,9 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
             return f'  {{"{name}", &(_instrument_var._parameters.{name}), {typename}, {nps(value)}, {nps(unit)}}},'
 
         lines = [f'int numipar = {len(source.parameters)};', 'struct mcinputtable_struct mcinputtable[] = {']
-        lines.extend([one_line(p.name, p.value.mccode_c_type_name, p.value, p.unit) for p in source.parameters])
+        for p in source.parameters:
+            default = p.value if p.value.has_value or not p.value.is_constant else None
+            lines.append(one_line(p.name, p.value.mccode_c_type_name, default, p.unit))
         lines.extend(['  {NULL, NULL, instr_type_double, "", ""}'])
         lines.append("};")
         return '\n'.join(lines)
-- 
2.43.0


From 2b1fee01fdab59591647dca4746797d8a065f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:02 +0000
Subject: [PATCH 065/158] fix: initialisers of declared arrays and structures
 keep their nesting, strings and separators

---
 src/mccode_antlr/translators/c_initialise.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 492b56a..bb34f54 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -199,13 +199,10 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
         # c_dec is a CDeclare named tuple with (name, type, init, is_pointer, is_array, orig)
         initialized_value = 'NULL' if (c_dec.is_pointer and c_dec.init is None) else c_dec.init
         fullname = f'_{comp.name}_var._parameters.{c_dec.name}'
-        if c_dec.is_array and initialized_value is not None:
-            for i, val in enumerate(initialized_value.strip('{}').split(',')):
-                lines.append(f'  {fullname}[{i}] = {val.strip()};')
-        # elif c_dec.is_struct and initialized_value is not None:
-        #     # deal with a structured initializer ...
-        #     # = {.x=#, .y=#, ...}
-        #     pass
+        if initialized_value is not None and (c_dec.is_array or initialized_value.lstrip().startswith('{')):
+            # C only allows array and structure initializers in a declaration
+            lines.append(f'  {{ {c_dec.as_struct_member()} = {initialized_value};'
+                         f' memcpy(&{fullname}, &{c_dec.name}, sizeof({c_dec.name})); }}')
         elif initialized_value is not None:
             lines.append(f'  {fullname} = {initialized_value};')
     # >>> End of second call to `cogen_comp_init_par`
-- 
2.43.0


From fa7b4d1f24d782473136d22c21116a4833571176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:12 +0000
Subject: [PATCH 066/158] fix: NULL for a vector parameter is a null pointer in
 the simulation

---
 src/mccode_antlr/translators/c_initialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index bb34f54..581a330 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -112,7 +112,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
         pl = []
         fullname = f'_{comp.name}_var._parameters.{p.name}'
         value = f'{p.value:p}'
-        if default.value.is_str or p.value.is_str:
+        if default.value.is_str or (p.value.is_str and not default.value.is_vector):
             # p might be an identifier, or a string literal, or an operation
             # (function call, struct member access, ...)
             # in any case we need to copy it instead of assigning
-- 
2.43.0


From 847f2ebb98f3d9364df004d9cdef39e9f38506b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:12 +0000
Subject: [PATCH 067/158] fix: elements of a vector value can be instrument
 parameters

---
 src/mccode_antlr/translators/c_initialise.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 581a330..ad8a5ea 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -102,6 +102,14 @@ def cogen_comp_init_position(index, comp, last, instr):
 def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
     from ..common import Expr
 
+    def element(v):
+        # the elements of a vector are numbers or the text of an expression
+        if not isinstance(v, str):
+            return v
+        expr = Expr.parse(v)
+        expr.verify_parameters([x.name for x in instr.parameters])
+        return f'{expr:p}'
+
     def parameter_line(default):
         # cogen_comp_init_par skipped any parameters which had "val" which evaluates False
         # For 'out_par' (DECLARE extracted parameters) any non-'->isoptional' values were skipped.
@@ -132,10 +140,10 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
         elif default.value.is_vector or p.value.is_vector:
             if p.value.vector_known:
                 # hack-in an allocator for the fixed-length allocated array
-                c_type = par.value.mccode_c_type.translate(str.maketrans('', '', ' *'))  # strip the trailing ' *'
+                c_type = default.value.mccode_c_type.translate(str.maketrans('', '', ' *'))  # strip the trailing ' *'
                 pl.append(f'  {fullname} = calloc(sizeof({c_type}), {len(p.value.value)});')
                 for i, v in enumerate(p.value.value):
-                    pl.append(f'  {fullname}[{i}] = {v};')
+                    pl.append(f'  {fullname}[{i}] = {element(v)};')
             elif p.value.is_id:
                 pl.append(f'  {fullname} = {value};')
             else:
-- 
2.43.0


From 7c9a3216e0f4b248a832a6b3c79a88a7394afcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:12 +0000
Subject: [PATCH 068/158] fix: string values which are not ASCII are copied
 completely

---
 src/mccode_antlr/translators/c_initialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index ad8a5ea..58a7791 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -134,7 +134,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
                 ])
             elif p.value.has_value and p.value.value != '0' and p.value.value != 'NULL' and p.value.value != '""':
                 # len(value)-1 to remove quotes, but copy null terminator
-                pl.append(f'  stracpy({fullname}, {value}, {len(p.value.value)-1});')
+                pl.append(f'  stracpy({fullname}, {value}, {len(p.value.value.encode())-1});')
             else:
                 pl.append(f"  {fullname}[0] = '\\0';")
         elif default.value.is_vector or p.value.is_vector:
-- 
2.43.0


From 89865e50c5f7844b096b030738b083e871f259e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:12 +0000
Subject: [PATCH 069/158] fix: DEFINITION PARAMETERS have values in the
 simulation

---
 src/mccode_antlr/translators/c_decls.py      | 5 ++---
 src/mccode_antlr/translators/c_initialise.py | 6 +++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 61ba260..f85f8e4 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -156,8 +156,7 @@ def component_type_declaration(comp, typedefs: list, declared_parameters: list):
         f'struct _struct_{comp.name}_parameters {{',
         f"  /* Component type '{comp.name}' setting parameters */"
     ]
-    # TODO Veryify that the cogen.c iteration over `comp->def->set_par` does not somehow include DEFINITION PARAMETERS
-    for par in comp.setting:
+    for par in comp.define + comp.setting:
         # FIXME We CANT define a static array here without knowing the maximum size used in every component!
         # # if par.value.is_a(Value.Type.float_array) or par.value.is_a(Value.Type.int_array):
         # if par.value.vector_known:
@@ -180,7 +179,7 @@ def component_type_declaration(comp, typedefs: list, declared_parameters: list):
     lines.append(f"  /* Component type '{comp.name}' private parameters */")
     lines.extend([f'  {x.as_struct_member()};' for x in declared_parameters])
 
-    if len(comp.setting) + len(declared_parameters) == 0:
+    if len(comp.define) + len(comp.setting) + len(declared_parameters) == 0:
         lines.append(f'  char {comp.name}_has_no_parameters;')
 
     lines.extend([
diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 58a7791..671822c 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -171,7 +171,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
             f'    mccomp_placement_type_nexus(nxhandle, {gstr}, {pos_id}, {rot_id}, "{comp.type.name}");'
         ]
         # loop over component instance parameters and set their values in the NeXus group ...
-        for default in comp.type.setting:
+        for default in comp.type.define + comp.type.setting:
             p = comp.get_parameter(default.name)
             dstr = f'{default.value:p}'
             vstr = f'{p.value:p}'
@@ -198,8 +198,8 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
 
     # <<< This is the first call to `cogen_comp_init_par`: `cogen_comp_init_par(comp, instr, "SETTING")
     # With `section == "SETTING"` the first call picks out `comp->def->set_par`
-    for par in comp.type.setting:
-        # For each component definition SETTING PARAMETER the same-named instance parameter is retrieved
+    for par in comp.type.define + comp.type.setting:
+        # For each component definition parameter the same-named instance parameter is retrieved
         lines.append(parameter_line(par))
     # >>> End of first call to `cogen_comp_init_par`
     # <<< Start of second call to `cogen_comp_init_par`: `cogen_comp_init_par(comp, instr, "PRIVATE")`
-- 
2.43.0


From ed6b62d03c43eb347a5a8c1945dc8f5b3856208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:38 +0000
Subject: [PATCH 070/158] fix: a parameter default can be an operation when
 translated

---
 src/mccode_antlr/common/expression.py   | 13 +++++++++++--
 src/mccode_antlr/translators/c_decls.py |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 5fb32f4..aa8c5bd 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -287,6 +287,17 @@ class Op:
     def vector_known(self):
         return False
 
+    def _typed_value(self):
+        return Value(None, data_type=self.data_type, object_type=ObjectType.value, shape_type=self.shape_type)
+
+    @property
+    def mccode_c_type(self):
+        return self._typed_value().mccode_c_type
+
+    @property
+    def mccode_c_type_name(self):
+        return self._typed_value().mccode_c_type_name
+
     @staticmethod
     def _operand(other):
         return other if isinstance(other, (Value, Op)) else Value.best(other)
@@ -1368,8 +1379,6 @@ class Expr:
     def mccode_c_type(self):
         if len(self.expr) != 1:
             raise RuntimeError('No McCode C type for array Expr objects')
-        if not isinstance(self.expr[0], Value):
-            logger.critical(f'Why is {self.expr[0]} not a Value?')
         return self.expr[0].mccode_c_type
 
     @property
diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index f85f8e4..e31d227 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -73,7 +73,8 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
 
         lines = [f'int numipar = {len(source.parameters)};', 'struct mcinputtable_struct mcinputtable[] = {']
         for p in source.parameters:
-            default = p.value if p.value.has_value or not p.value.is_constant else None
+            # the runtime reads a number, it does not know about operations
+            default = p.value.simplify() if p.value.has_value or not p.value.is_constant else None
             lines.append(one_line(p.name, p.value.mccode_c_type_name, default, p.unit))
         lines.extend(['  {NULL, NULL, instr_type_double, "", ""}'])
         lines.append("};")
-- 
2.43.0


From f30362f1ee9ba772847a31f925cac14c02e7204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:52 +0000
Subject: [PATCH 071/158] fix: a declared character array can be initialised by
 a string

---
 src/mccode_antlr/translators/c_listener.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 38e7d26..ca283d7 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -169,8 +169,11 @@ class CDeclarator:
         return hash(str(self))
 
     def as_struct_member(self, dims: int = 0, max_array_length: int = 16384):
-        if self.init:
+        if self.init and self.init.lstrip().startswith('{'):
             max_array_length = extract_initializer_size(self.init)
+        elif self.init and self.is_array:
+            # a string, e.g., char text[] = "string";
+            max_array_length = f'sizeof({self.init})'
         dims = len(self.elements) if self.elements else 0
         mal = max_array_length if isinstance(max_array_length, tuple) else (max_array_length,)
         if len(mal) < dims:
-- 
2.43.0


From 2d931876fb7a38129c0f1190b5049f5afb50f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:57 +0000
Subject: [PATCH 072/158] fix: instrument parameters are recognised in every
 expression of an instance

---
 src/mccode_antlr/instr/instance.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index e4c3fe2..5f962e1 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -160,11 +160,16 @@ class Instance:
         self.parameters += (ComponentParameter(p.name, value), )
 
     def verify_parameters(self, instrument_parameters: tuple[InstrumentParameter, ...]):
-        """Check for instance parameters which are identifiers that match instrument parameter names,
-        and flag them as parameter objects"""
+        """Check for identifiers that match instrument parameter names in the parameters, placement, WHEN, SPLIT, and
+        JUMP expressions, and flag them as parameter objects"""
         instrument_parameter_names = [x.name for x in instrument_parameters]
         for par in self.parameters:
             par.value.verify_parameters(instrument_parameter_names)
+        exprs = [*self.at_relative[0], *self.rotate_relative[0], self.when, self.split]
+        exprs += [jump.condition for jump in self.jump]
+        for expr in exprs:
+            if isinstance(expr, Expr):
+                expr.verify_parameters(instrument_parameter_names)
 
     def get_parameter(self, name: str):
         for par in self.parameters:
-- 
2.43.0


From b9bac3da255da1238e2029ec0eb7527266554508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:22 +0000
Subject: [PATCH 073/158] fix: only string parameters are strings in the NeXus
 parameter list

---
 src/mccode_antlr/translators/c_initialise.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 671822c..9f44d61 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -101,6 +101,7 @@ def cogen_comp_init_position(index, comp, last, instr):
 
 def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
     from ..common import Expr
+    from ..common.utilities import escape_str_for_c
 
     def element(v):
         # the elements of a vector are numbers or the text of an expression
@@ -176,8 +177,10 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
             dstr = f'{default.value:p}'
             vstr = f'{p.value:p}'
             tstr = f'"{default.value.mccode_c_type}"'
-            if not (default.value.is_str or p.value.is_str):
-                dstr, vstr = [f'"{x}"' for x in (dstr, vstr)]
+            if not (default.value.is_str or (p.value.is_str and not default.value.is_vector)):
+                dstr, vstr = [f'"{escape_str_for_c(x)}"' for x in (dstr, vstr)]
+            elif default.value.is_constant and not default.value.has_value:
+                dstr = 'NULL'
             lns.append(f'    mccomp_param_nexus(nxhandle, {gstr}, "{default.name}", {dstr}, {vstr}, {tstr});')
 
         return '\n'.join(lns + ['    );','    }','  }', '#endif'])
-- 
2.43.0


From b2d34241866f1c6f63bddfdc96ff24c71a2b0693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:11 +0000
Subject: [PATCH 074/158] fix: translating does not add registries to the
 instrument

---
 src/mccode_antlr/compiler/c.py         | 2 +-
 src/mccode_antlr/instr/instr.py        | 8 +++++++-
 src/mccode_antlr/translators/c.py      | 9 +++++----
 src/mccode_antlr/translators/target.py | 3 ++-
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index c84b0a0..0d772d9 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -85,7 +85,7 @@ class CBinaryTarget:
 def instrument_source(instrument: Instr, generator: dict, config: dict, verbose: bool = None):
     if verbose is None:
         verbose = config.get('verbose', False)
-    # TargetVisitor to uses instrument.registries (and the CTargetVisitor *appends* its LIBC_REGISTRY if necessary)
+    # TargetVisitor to uses instrument.registries (and the CTargetVisitor also uses its LIBC_REGISTRY if necessary)
     visitor = CTargetVisitor(instrument, generate=generator, config=config, verbose=verbose)
     # Does the conversion by 'visiting' the instrument, then returns the full string of the generated source code
     return visitor.contents()
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 06fb438..e32e15a 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -219,7 +219,13 @@ class Instr:
 
     def _getpath(self, filename: str):
         from pathlib import Path
-        for registry in self.registries:
+        from ..reader import LIBC_REGISTRY
+        from ..reader.registry import ordered_registries
+        # dependencies can be part of the C library, which is always available for translation
+        registries = list(self.registries)
+        if not any(registry == LIBC_REGISTRY for registry in registries):
+            registries.append(LIBC_REGISTRY)
+        for registry in ordered_registries(registries):
             if registry.known(filename):
                 return registry.path(filename).absolute().resolve()
         return Path()
diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 262b0be..2300d18 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -232,12 +232,13 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
         # Make sure the registry list contains the C library registry, so that we can find and include files
         from packaging.version import Version
         from ..reader.registry import ordered_registries
-        if not any(reg == LIBC_REGISTRY for reg in self.registries):
-            self.source.registries += (LIBC_REGISTRY, )
-        self.source.registries = tuple(ordered_registries(list(self.source.registries)))
+        registries = list(self.registries)
+        if not any(reg == LIBC_REGISTRY for reg in registries):
+            registries.append(LIBC_REGISTRY)
+        self._registries = tuple(ordered_registries(registries))
 
         # Check that the LIBC registry is not too old for current translation
-        for reg in self.source.registries:
+        for reg in self.registries:
             # NeXus interface changed in v3.5.20 release of McStas/McXtrace == McCode
             if 'libc' == reg.name and Version(reg.version) < Version("3.5.20"):
                 logger.warning(f"Requested McCode libc version {reg.version} may"
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 183617f..b4753f6 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -18,6 +18,7 @@ class TargetVisitor:
         self.runtime = MCSTAS_GENERATOR if generate is None else generate
         self.config = CONFIG if config is None else config
         self.source = instr
+        self._registries = None
         self.output = None
         self.verbose = verbose
         self.warnings = 0
@@ -53,7 +54,7 @@ class TargetVisitor:
     @property
     def registries(self):
         # TODO always ensure this is sorted by priority?
-        return self.source.registries
+        return self.source.registries if self._registries is None else self._registries
 
     def known(self, name: str, which: str = None):
         if self.registries is None:
-- 
2.43.0


From fe3f53f5093055cfb1ca78ec0ae6347a5421eea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:11 +0000
Subject: [PATCH 075/158] fix: the translation of a code block is not part of
 what it says

---
 src/mccode_antlr/common/block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/block.py b/src/mccode_antlr/common/block.py
index 61a3dfe..90b90bd 100644
--- a/src/mccode_antlr/common/block.py
+++ b/src/mccode_antlr/common/block.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from .utilities import escape_str_for_c
 
 @dataclass
@@ -6,7 +6,7 @@ class RawC:
     filename: str
     line: int
     source: str
-    translated: str = None
+    translated: str = field(default=None, compare=False)
 
     def __str__(self):
         return self.source
-- 
2.43.0


From ec607686faa989fab99ae7d1150a66ac5f449550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 076/158] fix: metadata with the same source are equal

---
 src/mccode_antlr/common/metadata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mccode_antlr/common/metadata.py b/src/mccode_antlr/common/metadata.py
index 81789bd..f2b080a 100644
--- a/src/mccode_antlr/common/metadata.py
+++ b/src/mccode_antlr/common/metadata.py
@@ -20,6 +20,14 @@ class DataSource:
     def name(self, new_name: str):
         self._name = new_name
 
+    def __eq__(self, other):
+        if not isinstance(other, DataSource):
+            return NotImplemented
+        return self._type == other._type and self._name == other._name
+
+    def __hash__(self):
+        return hash((self._type, self._name))
+
     def is_a(self, source_type: Type):
         return self._type == source_type
 
-- 
2.43.0


From 1e6079cfed52d3c08930c6c66cf5ef9b0e6bdf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:34 +0000
Subject: [PATCH 077/158] fix: the index of a jump target in one translation is
 not part of the jump

---
 src/mccode_antlr/instr/jump.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 4429371..e5b1d76 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from ..common import Expr
 
 
@@ -8,7 +8,7 @@ class Jump:
     relative_target: int
     iterate: bool
     condition: Expr
-    absolute_target: int = -1
+    absolute_target: int = field(default=-1, compare=False)
 
     def to_file(self, output, wrapper):
         from re import fullmatch
-- 
2.43.0


From 65f51a850fdbfa9a26d2048cd9b620c5ff7facee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 078/158] fix: the order of dependency flags does not depend on
 string hashes

---
 src/mccode_antlr/instr/instr.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index e32e15a..aff413b 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -294,14 +294,15 @@ class Instr:
         return flag
 
     @property
-    def unique_flags(self) -> set[str]:
+    def unique_flags(self) -> list[str]:
         # Each 'flag' in self.flags is from a single instrument component DEPENDENCY,
         # and might contain duplicates: If we accept that white space differences
         # matter, we can deduplicate the strings 'easily'
-        uf = set(self.flags)
+        uf = list(self.flags)
         if any(inst.cpu for inst in self.components):
-            uf.add('-DFUNNEL')
-        return uf
+            uf.append('-DFUNNEL')
+        # the order of the flags can matter to a compiler and linker
+        return list(dict.fromkeys(uf))
 
     def decoded_flags(self) -> list[str]:
         # The dependency strings are allowed to contain any of
-- 
2.43.0


From b1f6a635e0e2c395f3c9d21e323aa7595870d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 079/158] fix: the order of includes does not depend on string
 hashes

---
 src/mccode_antlr/translators/c.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 2300d18..9ea62cf 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -40,7 +40,8 @@ def sort_include_hierarchy(includes: list[CInclude]):
         return []
     logger.debug(f'sort includes {" ".join(str(x) for x in includes)}')
     # find the 'root' of the tree, a parent which is _not_ a named include:
-    roots = list(set([x.parent for x in includes]).difference(set([x.name for x in includes])))
+    names = [x.name for x in includes]
+    roots = list(dict.fromkeys(x.parent for x in includes if x.parent not in names))
     options = {}
     for root in roots:
         for include in includes:
@@ -141,19 +142,19 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
 
     def _parse_libraries_for_typedefs(self):
         from .c_listener import extract_c_defined_types as parse
-        typedefs = set()
+        typedefs = []
         for include in self.includes:
             # logger.debug(f'library {include.name}')
             # The files '%include'-d can themselves use the '%include' mechanism :/
             defined_types = parse(include.content, user_types=list(typedefs))
-            typedefs = typedefs.union(set(defined_types))
+            typedefs.extend(x for x in defined_types if x not in typedefs)
             # logger.debug(f'{include.name} done')
         # types can also be defined in component 'SHARE' blocks:
         for block in [share for comp in self.source.component_types() if len(comp.share) for share in comp.share]:
             # TODO decide if this should be block.translated or block.source
             defined_types = parse(block.to_c(), user_types=list(typedefs))
-            typedefs = typedefs.union(set(defined_types))
-        self.typedefs = list(typedefs)
+            typedefs.extend(x for x in defined_types if x not in typedefs)
+        self.typedefs = typedefs
 
     def _determine_uservars(self):
         """An instrument can define 'USERVARS' which thus far has been treated as an unparsed block of code.
-- 
2.43.0


From cea5ff33ff7aaf9ae924f5182400130cca86e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 080/158] fix: texts written as C strings keep every character

---
 src/mccode_antlr/common/utilities.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/utilities.py b/src/mccode_antlr/common/utilities.py
index 8ebe4fb..f60dcca 100644
--- a/src/mccode_antlr/common/utilities.py
+++ b/src/mccode_antlr/common/utilities.py
@@ -1,4 +1,17 @@
 def escape_str_for_c(s: str):
     if s is None:
         return ''
-    return s.encode('unicode-escape').decode('utf-8').replace('"', r'\"')
+    named = {'"': r'\"', '\\': r'\\', '\n': r'\n', '\r': r'\r', '\t': r'\t'}
+    escaped = []
+    for byte in s.encode('utf-8', 'surrogateescape'):
+        char = chr(byte)
+        if char in named:
+            escaped.append(named[char])
+        elif char == '?' and escaped and escaped[-1] in ('?', r'\?'):
+            escaped.append(r'\?')  # two question marks could start a trigraph
+        elif 32 <= byte < 127:
+            escaped.append(char)
+        else:
+            # three octal digits can not be extended by the character after them, hexadecimal digits are
+            escaped.append(f'\\{byte:03o}')
+    return ''.join(escaped)
-- 
2.43.0


From 2c9b4f706fc022ce3f7c46a41a39612cfc046dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 081/158] fix: metadata names and types, and parameter units,
 can contain quotes and control characters

---
 src/mccode_antlr/common/utilities.py    |  8 ++++++++
 src/mccode_antlr/translators/c_decls.py | 11 ++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/common/utilities.py b/src/mccode_antlr/common/utilities.py
index f60dcca..698418b 100644
--- a/src/mccode_antlr/common/utilities.py
+++ b/src/mccode_antlr/common/utilities.py
@@ -15,3 +15,11 @@ def escape_str_for_c(s: str):
             # three octal digits can not be extended by the character after them, hexadecimal digits are
             escaped.append(f'\\{byte:03o}')
     return ''.join(escaped)
+
+
+def escape_literal_for_c(s: str):
+    """Text from inside a string literal: its escape sequences are kept, anything which would end it is escaped"""
+    import re
+    if s is None:
+        return ''
+    return ''.join(part if index % 2 else escape_str_for_c(part) for index, part in enumerate(re.split(r'(\\.)', s)))
diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index e31d227..d138991 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -62,11 +62,11 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
     def instrument_parameters_table():
         def nps(x):
             """`None`-protected (single) double-quoted string"""
+            from ..common.utilities import escape_literal_for_c
             z = '' if x is None else f'{x}'
-            if z == '"':
-                logger.info('single double-quote found in parameter value -- escaping to avoid C syntax error')
-                z = '\"'
-            return z if len(z) and z[0] == '"' and z[-1] == '"' else f'"{z}"'
+            if len(z) > 1 and z[0] == '"' and z[-1] == '"':
+                z = z[1:-1]
+            return f'"{escape_literal_for_c(z)}"'
 
         def one_line(name, typename, value, unit):
             return f'  {{"{name}", &(_instrument_var._parameters.{name}), {typename}, {nps(value)}, {nps(unit)}}},'
@@ -82,7 +82,8 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
 
     def metadata_table():
         def one_line(defined_by, name, mimetype, value):
-            from ..common.utilities import escape_str_for_c
+            from ..common.utilities import escape_str_for_c, escape_literal_for_c
+            name, mimetype = [escape_literal_for_c(x) for x in (name, mimetype)]
             return f' {{"{defined_by}", "{name}", "{mimetype}", "{escape_str_for_c(value)}"}}, '
 
         metadata = source.collect_metadata()
-- 
2.43.0


From d158ff53ebf1d71dc5372636bf82f44c4a3e3bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 082/158] fix: file names and flags can not end the comment
 which has them

---
 src/mccode_antlr/translators/c_header.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index 213ae61..1e1e065 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -85,14 +85,17 @@ def header_pre_runtime(
     mcgetstate = ', '.join(f'{t} {n}' for n, t in getstate_signature_members(is_mcstas).items())
     mcinitstate = ', '.join(setstate_signature_call(is_mcstas))
 
+    def comment(text):
+        return str(text).replace('*/', '* /')
+
     contents = dedent(f"""/* Automatically generated file. Do not edit.
      * Format:     ANSI C source code
      * Creator:    {runtime.get("fancy")} <{runtime.get("url")}>
      * Generator:  mccode-antlr {version()} <https://github.com/McStasMcXtrace/mccode-antlr.git>
-     * Instrument: {source.source} ({source.name})
+     * Instrument: {comment(source.source)} ({source.name})
      * Date: {datetime.now()}
-     * File: {config.get('output')}
-     * CFLAGS={' '.join(source.unique_flags)}
+     * File: {comment(config.get('output'))}
+     * CFLAGS={comment(' '.join(source.unique_flags))}
      */
 
     #ifndef WIN32
-- 
2.43.0


From 6e2f10675f26b08948b6974d3bef76bda2cbda24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 083/158] fix: the embedded instrument source keeps its line
 ends

---
 src/mccode_antlr/translators/c_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index 1e1e065..a05674d 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -278,7 +278,7 @@ def header_post_runtime(source, runtime: dict, config: dict, include_path):
             return 'Instrument source code is not embedded in this executable.'
         path = Path(source.source)
         if config.get('embed_instrument_file') and path.exists() and access(path, R_OK):
-            with path.open('r') as file:
+            with path.open('r', newline='', encoding='utf-8', errors='surrogateescape') as file:
                 return escape_str_for_c(file.read())
         message = f"Instrument {source.name} source code "
         message += f"from {escape_str_for_c(source.source)} is not embedded in this executable.\\n"
-- 
2.43.0


From 9a4a38e183bd8d5dd58929fe25d2fcc85ee225e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 084/158] fix: a library is included once and after all
 libraries it includes itself

---
 src/mccode_antlr/translators/c.py | 110 +++++++++++++-----------------
 1 file changed, 47 insertions(+), 63 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 9ea62cf..86ce713 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -12,64 +12,44 @@ class CInclude:
     name: str
     order: int
     content: str = ''
-    root: str = ''
+    needs: tuple[str, ...] = ()  # names of the libraries included by this one
 
     def __hash__(self):
-        return hash(self.parent + self.name + self.content + self.root)
+        return hash(self.parent + self.name + self.content)
 
     def __str__(self):
-        return f'{self.root}:{self.parent}({self.order}):{self.name}'
-
-    def __lt__(self, other):
-        if self.parent == other.parent:
-            return self.order > other.order
-        if self.root or other.root:
-            if self.parent == self.root or self.parent == other.root:
-                return True
-            if other.parent == self.root or other.parent == other.root:
-                return False
-        if self.parent == other.name:
-            return False
-        if other.parent == self.name:
-            return True
-        return self.name < other.name
+        return f'{self.parent}({self.order}):{self.name}'
+
+
+def _dependency_order(names, needs, cycles_allowed=False):
+    """The names, each after all those it needs and otherwise in the given order"""
+    ordered, pending = {}, []
+
+    def add(name):
+        if name in ordered:
+            return
+        if name in pending:
+            if cycles_allowed:
+                return
+            raise RuntimeError(f'No valid sorting of includes: {" includes ".join(pending + [name])}')
+        pending.append(name)
+        for need in needs(name):
+            add(need)
+        pending.pop()
+        ordered[name] = True
+
+    for x in names:
+        add(x)
+    return list(ordered)
 
 
 def sort_include_hierarchy(includes: list[CInclude]):
-    if len(includes) == 0:
-        return []
+    """One include per library, such that a library follows all libraries which it includes itself"""
     logger.debug(f'sort includes {" ".join(str(x) for x in includes)}')
-    # find the 'root' of the tree, a parent which is _not_ a named include:
-    names = [x.name for x in includes]
-    roots = list(dict.fromkeys(x.parent for x in includes if x.parent not in names))
-    options = {}
-    for root in roots:
-        for include in includes:
-            include.root = root
-        # Sort the includes such that if A includes B and C, and C includes B, then we get [C:B, A:C, A:B]
-        # Or a more complicated case: G:(Z,A,W), Z:(B,Y), A:X, W(Y) -> [Z:Y, W:Y, A:X, B:W, Z:B, G:A, G:Z, G:W]
-        used, output = [], []
-        for include in sorted(includes, reverse=True):
-            if include.name not in used:
-                output.append(include)
-                used.append(include.name)
-        # Reduce output to [C:B, A:C], or [Z:Y, A:X, B:W, Z:B, G:A, G:Z], which would include the libraries correctly
-        # Double check, that the include order does not _directly_ contradict one of the include directives:
-        order = [x.name for x in output]
-        contradicts = False
-        for include in includes:
-            if include.parent in order and include.name in order:
-                parent_at = [index for index, name in enumerate(order) if name == include.parent][0]
-                name_at = [index for index, name in enumerate(order) if name == include.name][0]
-                if name_at > parent_at:
-                    contradicts = True
-        if not contradicts:
-            logger.debug(f"sorted to {'  '.join(order)}")
-            options[root] = output
-    if len(options) == 0:
-        raise RuntimeError(f'No valid sorting of {includes=}')
-    # Maybe there's a case where the specified root matters?
-    return list(options.values())[0]
+    first = {}
+    for include in includes:
+        first.setdefault(include.name, include)
+    return [first[name] for name in _dependency_order(first, lambda name: first[name].needs)]
 
 
 class CTargetVisitor(TargetVisitor, target_language='c'):
@@ -106,6 +86,7 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
         new_includes = []
         for include in includes:
             found_includes, include.content = self._handle_raw_c_include(include.name, include.content)
+            include.needs = tuple(dict.fromkeys(x.name for x in found_includes if x.parent == include.name))
             if found_includes:
                 new_includes.extend(found_includes)
                 new_includes = list(dict.fromkeys(new_includes))
@@ -263,6 +244,17 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
                 incs, block.translated = self._handle_raw_c_include(instance.name, block.source)
                 includes.extend(incs)
                 includes = list(dict.fromkeys(includes))
+        # the source of a library can request more libraries
+        self.library_sources = {}
+        if self.config.get('include_runtime'):
+            for include in includes:  # grows inside of the loop
+                if include.name in self.library_sources:
+                    continue
+                c_name = f'{include.name}.c'
+                incs, content = self._handle_raw_c_include(c_name, self._file_contents(c_name))
+                needs = tuple(dict.fromkeys(x.name for x in incs if x.parent == c_name))
+                self.library_sources[include.name] = include.needs + needs, content
+                includes.extend(incs)
         self.includes = sort_include_hierarchy(includes)
 
         # search the library headers for type definitions:
@@ -332,18 +324,8 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
 
     def include_source(self, source: CInclude):
         self.info(f'include {source} source')
-        # c files can %include *more* files! If the specified files have already been included, there's nothing
-        # to do. Otherwise, panic.
-        lib_names = [lib.name for lib in self.includes]
-        c_name = f'{source.name}.c'
-        c_libraries, c_content = self._handle_raw_c_include(c_name, self._file_contents(c_name))
-        for c_lib in [c_lib for c_lib in c_libraries if c_lib.name not in lib_names]:
-            logger.info(f'{c_name} requested {c_lib.name} but is has not been included yet!')
-            self.include_header(c_lib)
-            self.include_source(c_lib)
-            #self.includes.append(c_lib)
         self.out(f'/* Contents of {source.name}.c (requested from {source.parent}) */')
-        self.out(c_content)
+        self.out(self.library_sources[source.name][1])
 
     def visit_declare(self):
         from .c_decls import declarations_pre_libraries
@@ -360,8 +342,10 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
 
         self.info('Include runtime / list dependencies')
         if self.config.get('include_runtime'):
-            for include in self.includes:
-                self.include_source(include)
+            # all headers have been included, the source of a library follows those of the libraries it includes
+            includes = {include.name: include for include in self.includes}
+            for name in _dependency_order(includes, lambda x: self.library_sources[x][0], cycles_allowed=True):
+                self.include_source(includes[name])
         else:
             for include in self.includes:
                 print(f'Dependency: {include.name}.o')
-- 
2.43.0


From 9c453b84693991c13aa06958e3feac244cd63ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 085/158] fix: an included file can include a library

---
 src/mccode_antlr/translators/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 86ce713..c6a352b 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -70,7 +70,7 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
     def _handle_raw_c_include(self, parent: str, raw_c: str):
         import re
         re_lib = re.compile(r'^\s*%include\s*"(?P<libname>[^"\n\.]+)"\s*$', re.MULTILINE)
-        re_inc = re.compile(r'^\s*%include\s*"(?P<filename>[^"\n]+)"\s*$', re.MULTILINE)
+        re_inc = re.compile(r'^\s*%include\s*"(?P<filename>[^"\n]*\.[^"\n]*)"\s*$', re.MULTILINE)
         # Include statements without an extension are library includes (.h, plus .c if embedding the runtime)
         # McCode3 would insert the library immediately on first-encounter, but we want to collect all libraries
         # and ensure they're included before all components.
-- 
2.43.0


From 7b09452ea1f5adfb96038008f1e34a7726f944a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 086/158] fix: C declarations are understood by their parse
 tree, and their types can be structure members

---
 src/mccode_antlr/translators/c_listener.py | 237 ++++++++++++++-------
 1 file changed, 158 insertions(+), 79 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index ca283d7..8143a1a 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -47,16 +47,15 @@ def make_error_listener(super_class, source: str, pre=5, post=2):
 TCDeclarator = TypeVar('TCDeclarator', bound='CDeclarator')
 TCFuncPointer = TypeVar('TCFuncPointer', bound='CFuncPointer')
 
-def not_both_None_or_not_equal(a, b):
-    if (a is None and b is not None) or (a is not None and b is None):
-        return False
-    return a is not None and b is not None and a != b
+# Words of a declaration which say how an object is stored, but not what its type is
+STORAGE_WORDS = r'\b(?:static|extern|auto|register|_Thread_local|__thread|inline|__inline__?)\b'
 
 def same_type(a, b):
     return type(a) == type(b)
 
 @dataclass
 class CFuncPointer:
+    """A declarator in parentheses, e.g., of a pointer to a function, or if `args` is None of a pointer to an array"""
     declare: TCDeclarator
     modifiers: str | None = None
     args: str | None = None
@@ -75,15 +74,13 @@ class CFuncPointer:
     def __eq__(self, other: TCFuncPointer) -> bool:
         if not isinstance(other, CFuncPointer):
             raise ValueError('Type mismatch')
-        if not_both_None_or_not_equal(self.args, other.args):
-            return False
-        if not_both_None_or_not_equal(self.modifiers, other.modifiers):
+        if self.args != other.args or self.modifiers != other.modifiers:
             return False
         return self.declare == other.declare
 
     def string(self, dec_str):
         f = f'({self.modifiers} {dec_str})' if self.modifiers else f'({dec_str})'
-        return f'{f}({self.args})' if self.args else f'{f}()'
+        return f if self.args is None else f'{f}({self.args})'
 
     def __str__(self):
         return self.string(str(self.declare))
@@ -91,9 +88,8 @@ class CFuncPointer:
     def __hash__(self):
         return hash(str(self))
 
-    def as_struct_member(self, dims: int, max_array_length):
-        dec = self.declare.as_struct_member(dims=dims, max_array_length=max_array_length)
-        return self.string(dec)
+    def as_struct_member(self, init: str | None, max_array_length: int):
+        return self.string(self.declare.member_string(init, max_array_length))
 
 
 @dataclass
@@ -149,7 +145,7 @@ class CDeclarator:
                 return False
         for a, b in zip((self.pointer, self.elements, self.dtype, self.init),
                         (other.pointer, other.elements, other.dtype, other.init)):
-            if not_both_None_or_not_equal(a, b):
+            if a != b:
                 return False
         return same_type(self.declare, other.declare) and self.declare == other.declare
 
@@ -168,27 +164,110 @@ class CDeclarator:
     def __hash__(self):
         return hash(str(self))
 
-    def as_struct_member(self, dims: int = 0, max_array_length: int = 16384):
-        if self.init and self.init.lstrip().startswith('{'):
-            max_array_length = extract_initializer_size(self.init)
-        elif self.init and self.is_array:
-            # a string, e.g., char text[] = "string";
-            max_array_length = f'sizeof({self.init})'
-        dims = len(self.elements) if self.elements else 0
-        mal = max_array_length if isinstance(max_array_length, tuple) else (max_array_length,)
-        if len(mal) < dims:
-            mal *= dims // len(mal)
-        no = self.elements if self.elements else mal
-        if not isinstance(no, tuple):
-            raise RuntimeError(f'{no} should be a tuple but is a {type(no)}')
-        if isinstance(self.declare, CFuncPointer):
-            return self.string(self.declare.as_struct_member(dims=dims, max_array_length=no))
-        elif self.elements is not None:
-            if 0 in no:
-                # Is this a bad idea?
-                no = tuple(m if x == 0 else x for x, m in zip(no, mal))
-            return f"{self}{''.join(f'[{n}]' for n in no)}"
-        return str(self)
+    def as_struct_member(self, max_array_length: int = 16384):
+        return self.member_string(self.init, max_array_length)
+
+    def member_string(self, init: str | None, max_array_length: int):
+        """The declaration of an assignable structure member of the same type"""
+        import re
+        dtype, pointer = self.dtype, self.pointer
+        if dtype:
+            start, body, stop = split_type_body(dtype)
+            # only 'const' of something pointed to is part of the type of the member
+            drop = f'{STORAGE_WORDS}|\\bconst\\b' if pointer is None and isinstance(self.declare, str) else STORAGE_WORDS
+            start, stop = [' '.join(re.sub(drop, '', x).split()) for x in (start, stop)]
+            dtype = ' '.join(x for x in (start, body, stop) if x)
+        if pointer:
+            pointer = re.sub(r'[\s\w]*$', '', pointer)
+        if isinstance(self.declare, str):
+            dec = self.declare + self.array_string(dtype, pointer, init, max_array_length)
+        else:
+            # only elements of the inner declarator can be initialized
+            dec = self.declare.as_struct_member(init, max_array_length)
+            dec += ''.join(f'[{n}]' for n in self.elements or ())
+        member = self.copy()
+        member.dtype, member.pointer = dtype, pointer
+        return member.string(dec)
+
+    def array_string(self, dtype: str | None, pointer: str | None, init: str | None, max_array_length: int):
+        """The dimensions of an array, any missing one is found from its initial value"""
+        elements = self.elements or ()
+        sizes = (max_array_length,) * len(elements)
+        if init and 0 in elements:
+            scalar = pointer or dtype is None or not any(x in dtype for x in ('struct', 'union'))
+            sizes = initializer_dimensions(init, len(elements), scalar, pointer is not None)
+            if sizes is None:
+                element = repeated_type(dtype) + f' {pointer or ""}'.rstrip() + ''.join(f'[{n}]' for n in elements[1:])
+                array = repeated_type(dtype) + f' {pointer or ""}'.rstrip() + '[]' + ''.join(f'[{n}]' for n in elements[1:])
+                braces = init if init.lstrip().startswith('{') else f'{{{init}}}'
+                sizes = (f'sizeof(({array}) {braces}) / sizeof({element})',) + elements[1:]
+        return ''.join(f'[{s if n == 0 else n}]' for n, s in zip(elements, sizes))
+
+
+def split_type_body(dtype: str) -> tuple[str, str, str]:
+    """Split a type at the definition of the members of a structure, union or enumeration, if it has one"""
+    start, stop = dtype.find('{'), dtype.rfind('}') + 1
+    return (dtype[:start], dtype[start:stop], dtype[stop:]) if start >= 0 else (dtype, '', '')
+
+
+def repeated_type(dtype: str) -> str:
+    """The way to use a type again where it was just used: one with a tag can not be defined twice"""
+    start, body, stop = split_type_body(dtype)
+    if not body:
+        return dtype
+    words = start.split()
+    if words[-1] not in ('struct', 'union', 'enum'):
+        return ' '.join(words + stop.split())
+    if words[-1] == 'enum':
+        # the names of the values can not be defined twice
+        return ' '.join(words[:-1] + ['int'] + stop.split())
+    return dtype
+
+
+def initializer_items(init: str) -> list[str] | None:
+    """The elements of a brace enclosed initializer, without comments, or None if it is something else"""
+    import re
+    token = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|/\*.*?\*/|//[^\n]*|.', flags=re.DOTALL)
+    items, depth = [''], 0
+    for part in token.findall(init.strip()):
+        if part.startswith(('/*', '//')):
+            part = ' '
+        if part in ('}', ')', ']'):
+            depth -= 1
+        if part == ',' and depth == 1:
+            items.append('')
+        elif depth:
+            items[-1] += part
+        elif part not in ('{', '}') and not part.isspace():
+            return None
+        if part in ('{', '(', '['):
+            depth += 1
+    items = [x.strip() for x in items]
+    return items if items[-1] else items[:-1]
+
+
+def initializer_dimensions(init: str, dimensions: int, scalar: bool, pointer: bool) -> tuple[int, ...] | None:
+    """The number of elements in each of the dimensions of an array with an initializer
+
+    This is not possible, and None is returned, if not every one of the (sub) arrays has its own braces,
+    or is identified by its position.
+    """
+    sizes, level = [], [init]
+    for _ in range(dimensions):
+        found = [initializer_items(x) for x in level]
+        if any(x is None for x in found):
+            return None
+        sizes.append(max(len(x) for x in found))
+        level = [item for x in found for item in x]
+        if any(item.startswith(('[', '.')) for item in level):
+            return None
+    if not scalar and any(not item.startswith('{') for item in level):
+        # the values of structure members do not need braces
+        return None
+    if not pointer and any(item.endswith('"') for item in level):
+        # a string fills an array of characters
+        return None
+    return tuple(sizes)
 
 
 def extract_initializer_size(init: str) -> tuple[int,...]:
@@ -202,14 +281,12 @@ def extract_initializer_size(init: str) -> tuple[int,...]:
     >>> extract_initializer_size('{{{0}, {1}}, {{2}, {3}}, {{4}, {5}}, {{6}, {7}}}')
     (4, 2, 1)
     """
-    import re
-    size = []
-    inner = re.compile('{([^{}]*)}')
-    x = init
-    while len(y:=inner.findall(x)):
-        size.append(len(y[0].split(',')))
-        x = inner.sub('_', x)
-    return tuple(reversed(size))
+    size, level = [], [init]
+    while level and all(x.lstrip().startswith('{') for x in level):
+        found = [initializer_items(x) for x in level]
+        size.append(max(len(x) for x in found))
+        level = [item for x in found for item in x]
+    return tuple(size)
 
 
 class DeclaresCVisitor(CVisitor):
@@ -242,15 +319,15 @@ class DeclaresCVisitor(CVisitor):
             #   typedef typeInformation aliasIdentifier;
             if specs[0] != 'typedef':
                 self.debug(f"Expected typedef ... identifier; not\n{literal_string(ctx)}")
-            if len(inits):
-                self.debug(f'Expected no initializer with typedef, but found {inits}')
-            alias = specs[-1]
-            if alias in self.typedefs:
-                self.info(f'Re-definition of typedef alias {alias}?')
-            self.typedefs.append(alias)
+            # declaring the alias like a variable, possibly multiple of them, pointers, arrays or functions
+            for alias in [decl.name.split('(')[0].strip() for decl, _ in inits] or [specs[-1]]:
+                if alias in self.typedefs:
+                    self.info(f'Re-definition of typedef alias {alias}?')
+                self.typedefs.append(alias)
         elif len(inits):
-            for decl, init in inits:
-                decl.dtype = ' '.join(specs)
+            dtype = ' '.join(specs)
+            for number, (decl, init) in enumerate(inits):
+                decl.dtype = repeated_type(dtype) if number else dtype
                 decl.init = init
                 self.declares.append(decl)
         elif len(specs) > 1:
@@ -258,6 +335,10 @@ class DeclaresCVisitor(CVisitor):
             decl.dtype = ' '.join(specs[:-1])
             self.declares.append(decl)
 
+    def visitFunctionDefinition(self, ctx:CParser.FunctionDefinitionContext):
+        # the variables of a function are not declared outside of it
+        self.debug(f'FunctionDefinition {literal_string(ctx)}')
+
     # Five declaration specifiers
     def visitStorageClassSpecifier(self, ctx:CParser.StorageClassSpecifierContext):
         self.debug(f'StorageClassSpecifier {literal_string(ctx)}')
@@ -273,7 +354,7 @@ class DeclaresCVisitor(CVisitor):
         if (c := ctx.typedefName()) is not None:
             return self.visit(c)
         if (c := ctx.constantExpression()) is not None:
-            return f'__typeof__({self.visit(c)}'
+            return f'__typeof__({self.visit(c)})'
         return literal_string(ctx)
 
     # Keep going from here
@@ -323,47 +404,45 @@ class DeclaresCVisitor(CVisitor):
 
     def visitDeclarator(self, ctx:CParser.DeclaratorContext):
         ptr = self.visit(ctx.pointer()) if ctx.pointer() else None
-        dec = self.visit(ctx.directDeclarator())
+        dec, elements = self.visit(ctx.directDeclarator())
         extensions = [self.visit(x) for x in ctx.gccDeclaratorExtension()]
-        elements = None
-        if isinstance(dec, CFuncPointer):
-            # elements = dec.declare.elements
-            # dec.declare.elements = None
-            pass
-        elif all(x in dec for x in ('[', ']')):
-            dec, post = dec.split('[', 1)
-            nums = tuple()
-            while ']' in post:
-                num, post = post.split(']', 1)
-                nums += (num,)
-                if '[' in post:
-                    _, post = post.split('[', 1)
+        if elements is not None:
             try:
-                elements = tuple(int(n) if len(n) else 0 for n in nums)
+                elements = tuple(int(n) if len(n) else 0 for n in elements)
             except ValueError as er:
-                logger.info(f"Could not convert an integer from {nums} due to {er}")
-                elements = nums
+                logger.info(f"Could not convert an integer from {elements} due to {er}")
+                elements = tuple(n if len(n) else 0 for n in elements)
         return CDeclarator(pointer=ptr, declare=dec, extensions=extensions, elements=elements)
 
+    def visitGccDeclaratorExtension(self, ctx:CParser.GccDeclaratorExtensionContext):
+        return literal_string(ctx)
+
     def visitPointer(self, ctx:CParser.PointerContext):
         self.debug(f'pointer {literal_string(ctx)}')
         return literal_string(ctx)
 
     def visitDirectDeclarator(self, ctx:CParser.DirectDeclaratorContext):
+        """Returns what is declared, and the dimensions if it is an array"""
         if ctx.declarator():
-            # this _is_ a function pointer declarator, right?
             modifiers = literal_string(ctx.vcSpecificModifer()) if ctx.vcSpecificModifer() else None
-            return CFuncPointer(self.visit(ctx.declarator()), modifiers=modifiers)
-        if ctx.Identifier():
-            return literal_string(ctx)
-
-        dd = ctx.directDeclarator()
-        after_dd_str = literal_string(ctx).replace(literal_string(dd), '')
-        dec = self.visit(dd)
-        if isinstance(dec, CFuncPointer):
-            dec.args = after_dd_str.strip('()')
-            return dec
-        return dec + after_dd_str
+            inner = self.visit(ctx.declarator())
+            if modifiers is None and inner.pointer is None and not inner.extensions:
+                # redundant parentheses
+                return inner.declare, inner.elements
+            return CFuncPointer(inner, modifiers=modifiers), None
+        if ctx.directDeclarator() is None:
+            return literal_string(ctx), None
+
+        dec, elements = self.visit(ctx.directDeclarator())
+        if ctx.LeftBracket():
+            size = ctx.assignmentExpression()
+            return dec, (elements or ()) + (literal_string(size) if size else '',)
+        contents = ctx.parameterTypeList() or ctx.identifierList()
+        args = literal_string(contents) if contents else ''
+        if isinstance(dec, CFuncPointer) and dec.args is None and elements is None:
+            dec.args = args
+            return dec, None
+        return f'{dec}({args})', None
 
 
 def extract_c_declared_variables_and_defined_types(
-- 
2.43.0


From ffba8059e95498b991a22e3516c9fae7b4dfa82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 087/158] fix: user variables of the particle keep their array
 dimensions

---
 src/mccode_antlr/translators/c_header.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index a05674d..b9d07bf 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -1,5 +1,5 @@
 from textwrap import dedent
-from .c_listener import CDeclarator
+from .c_listener import CDeclarator, repeated_type
 from ..instr import Instr
 
 
@@ -38,7 +38,7 @@ def header_pre_runtime(
     # Also store these strings in the appropriate instrument list for later def/undef as state variables
 
     uservar_string = '//user variables and comp - injections:\n' if len(uservars) else ''
-    uservar_string += '\n'.join([f'  {x};' for x in uservars])
+    uservar_string += '\n'.join([f'  {x.as_struct_member()};' for x in uservars])
 
     members = list(accessible_struct_members(is_mcstas)) + [x.name for x in uservars]
     # Shouldn't we exclude array-valued names here?
@@ -52,17 +52,15 @@ def header_pre_runtime(
     )
 
     # For non-array values we can safely use memcpy (probably)
-    members_types = ([(x, y) for x, y in accessible_struct_members(is_mcstas).items()]
-                     + [(x.name, x.dtype) for x in uservars if not x.is_array and not x.is_pointer]
-                     )
+    scalars = list(accessible_struct_members(is_mcstas)) + [x.name for x in uservars if not x.is_array and not x.is_pointer]
     setvar_void = '\n'.join(
-        [f'  if(!str_comp("{x}",name)){{memcpy(&(p->{x}), value, sizeof({y})); rval=0;}}'
-         for x, y in members_types]
+        [f'  if(!str_comp("{x}",name)){{memcpy(&(p->{x}), value, sizeof(p->{x})); rval=0;}}'
+         for x in scalars]
     )
 
     # an array -- need to know how many elements we're copying
     setvar_void_array = '\n'.join(
-        [f'  if(!str_comp("{x.name}",name)){{memcpy(&(p->{x.name}), value, elements * sizeof({x.dtype})); rval=0;}}'
+        [f'  if(!str_comp("{x.name}",name)){{memcpy(&(p->{x.name}), value, elements * sizeof({repeated_type(x.dtype)})); rval=0;}}'
          for x in uservars if x.is_array or x.is_pointer])
 
     restore = '\n'.join(
-- 
2.43.0


From 991812b9e1e461e584d09d833a02934e80178e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 088/158] fix: an array of pointers in DECLARE needs no initial
 value

---
 src/mccode_antlr/translators/c_initialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 9f44d61..c2f4e30 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -208,7 +208,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
     # <<< Start of second call to `cogen_comp_init_par`: `cogen_comp_init_par(comp, instr, "PRIVATE")`
     for c_dec in component_declared_parameters[comp.type.name]:
         # c_dec is a CDeclare named tuple with (name, type, init, is_pointer, is_array, orig)
-        initialized_value = 'NULL' if (c_dec.is_pointer and c_dec.init is None) else c_dec.init
+        initialized_value = 'NULL' if (c_dec.is_pointer and not c_dec.is_array and c_dec.init is None) else c_dec.init
         fullname = f'_{comp.name}_var._parameters.{c_dec.name}'
         if initialized_value is not None and (c_dec.is_array or initialized_value.lstrip().startswith('{')):
             # C only allows array and structure initializers in a declaration
-- 
2.43.0


From 4a002754c19f20b25f1c112a614f68b92da68cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 089/158] fix: a scan range iterates, measures and indexes the
 same points

---
 src/mccode_antlr/run/range.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index b56f36b..a5a9fc8 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -16,27 +16,22 @@ class MRange:
                              f'`list(MRange)` will be empty! Use a `Singular({self.start}, 1)` range instead.')
         if self.step == 0:
             raise ZeroDivisionError('MRange step cannot be zero')
+        if (self.stop > self.start) != (self.step > 0):
+            raise ValueError(f'MRange {self} is empty since its step leads away from its stop value')
 
     def __eq__(self, other):
         return self.start == other.start and self.stop == other.stop and self.step == other.step
 
     @property
     def min(self):
-        return self.start
+        return min(self[0], self[len(self) - 1])
 
     @property
     def max(self):
-        return self.stop
+        return max(self[0], self[len(self) - 1])
 
     def __iter__(self):
-        def range_gen(start, stop, step):
-            v = start
-            i = 0
-            while (step > 0 and v + step <= stop) or (step < 0 and v + step >= stop):
-                v = i * step + start
-                i += 1
-                yield v
-        return range_gen(self.start, self.stop, self.step)
+        return (self[i] for i in range(len(self)))
 
     def __getitem__(self, index: int):
         if index < 0 or index >= len(self):
@@ -50,7 +45,13 @@ class MRange:
         return f'MStyleRange({self})'
 
     def __len__(self):
-        return int((self.stop - self.start) / self.step) + 1
+        if all(isinstance(x, int) for x in (self.start, self.stop, self.step)):
+            return (self.stop - self.start) // self.step + 1
+        from sys import float_info
+        steps = (self.stop - self.start) / self.step
+        # the stop value is part of the range even if it is missed due to rounding of start, step, or their sum
+        scale = max(abs(self.start), abs(self.stop)) / abs(self.step)
+        return int(steps + min(0.5, 4 * float_info.epsilon * (scale + steps))) + 1
 
     @classmethod
     def from_str(cls, string):
-- 
2.43.0


From cfb0e61539f425e90ada928ddbf0397535387d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 090/158] fix: scanned parameters keep their names and are not
 modified, and can be lists or single values

---
 src/mccode_antlr/run/range.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index a5a9fc8..90fe06e 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -164,13 +164,15 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
     :parameter parameters: A dictionary of ranged parameters.
     :parameter grid: Controls how the parameters are iterated; True implies a grid scan, False implies a linear scan.
     """
-    if grid:
-        for k, v in parameters.items():
-            if isinstance(v, Singular):
-                parameters[k] = Singular(v.value, 1)
+    names = list(parameters.keys())
 
-    names = [x.lower() for x in parameters.keys()]
-    values = [x if hasattr(x, '__iter__') else [x] for x in parameters.values()]
+    def values_of(x):
+        if isinstance(x, Singular):
+            # repeating a value would repeat every point of a grid
+            return [x.value] * (1 if grid or x.maximum is None else x.maximum)
+        return x if hasattr(x, '__iter__') and not isinstance(x, str) else [x]
+
+    values = [values_of(x) for x in parameters.values()]
     if not len(values):
         return 0, names, []
     elif grid:
@@ -188,7 +190,7 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
                 par = 'parameters' if len(oth) > 1 else 'parameter'
                 have = 'have' if len(oth) > 1 else 'has'
                 raise ValueError(f'Parameter {names[i]} has {len(v)} values, but {par} {", ".join(oth)} {have} {n_max}')
-        return n_max, names, zip(*[v if len(v) > 1 else Singular(v[0] if isinstance(v, MRange) else v.value, n_max) for v in values])
+        return n_max, names, zip(*[v if len(v) > 1 else Singular(v[0], n_max) for v in values])
 
 
 def _MRange_or_Singular(s: str):
-- 
2.43.0


From cbfaa5b160c88cbeaeaf929ecb8d625b962c91cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 091/158] fix: header values of a detector file keep their last
 characters and block labels are no metadata

---
 src/mccode_antlr/loader/datfile.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 7fa3107..ca39e76 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -6,6 +6,10 @@ from pathlib import Path
 from numpy import ndarray
 
 
+# McPlot looks at only these labels to determine what is the data
+BLOCK_LABELS = 'Data', 'Errors', 'Events'
+
+
 @dataclass
 class DatFileCommon:
     source: Path
@@ -25,13 +29,16 @@ class DatFileCommon:
         with source.open('r') as file:
             lines = file.readlines()
 
-        header = [x.strip(' #\n') for x in filter(lambda x: x[0] == '#', lines)]
+        # only the comment marker is removed, the value can contain the same character; no key starts with a space
+        header = [x[1:].strip() for x in filter(lambda x: x[0] == '#', lines)]
+        # the lines which separate blocks of data are not metadata
+        header = [x for x in header if not x.startswith(tuple(f'{y} [' for y in BLOCK_LABELS))]
         meta = {k.strip(): v.strip() for k, v in
-                [x.split(':', 1) for x in filter(lambda x: not x.startswith('Param'), header)]}
+                [x.split(':', 1) for x in filter(lambda x: not x.startswith('Param:'), header)]}
         parm = {k.strip(): v.strip() for k, v in
-                [x.split(':', 1)[1].split('=', 1) for x in filter(lambda x: x.startswith('Param'), header)]}
-        var = meta.get('variables', '').split(' ')
-        data = array([[float(x) for x in line.strip().split()] for line in filter(lambda x: x[0] != '#', lines)])
+                [x.split(':', 1)[1].split('=', 1) for x in filter(lambda x: x.startswith('Param:'), header)]}
+        var = meta.get('variables', '').split()
+        data = array([[float(x) for x in line.split()] for line in lines if line[0] != '#' and line.strip()])
         return cls(source, meta, parm, var, data)
 
     @staticmethod
@@ -207,9 +214,8 @@ class DatFile2D(DatFileCommon):
         return first, second
 
     def print_data(self, file):
-        labels = 'Data', 'Errors', 'Events'  # McPlot looks at only these labels to determine what is the data
         for i, n in enumerate(self.variables):
-            print(f'# {labels[i]} [{self.metadata["component"]}/{self.metadata["filename"]}] {n}:', file=file)
+            print(f'# {BLOCK_LABELS[i]} [{self.metadata["component"]}/{self.metadata["filename"]}] {n}:', file=file)
             for row in self.data[i, ...]:
                 print(' '.join(str(x) for x in row), file=file)
 
-- 
2.43.0


From f8fc6b4ca3a622968851bbe210e79e6d3be04690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 092/158] fix: a detector file is written with all of its
 header lines, and only those it has

---
 src/mccode_antlr/loader/datfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index ca39e76..2d376c3 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -52,7 +52,9 @@ class DatFileCommon:
         sink = Path(filename).resolve()
         if sink.exists():
             raise RuntimeError(f'{filename} already exists')
-        first, second = self.parts()
+        first, second = [[item for item in part if item in self.metadata] for part in self.parts()]
+        # 'variables' is the last line of the header, and no other information should be lost
+        first += [item for item in self.metadata if item not in first and item not in second]
         with sink.open('w') as file:
             for item in first:
                 print(f'# {item}: {self.metadata[item]}', file=file)
-- 
2.43.0


From 6ce0d627406f7404a151d4f9283d8dc76da0d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 093/158] fix: zero dimensional detectors can be combined, and
 errors are independent

---
 src/mccode_antlr/loader/datfile.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 2d376c3..be766e1 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -131,7 +131,7 @@ class DatFile0D(DatFileCommon):
         return first, second
 
     def safe_to_combine(self, other):
-        if not isinstance(other, DatFile1D):
+        if not isinstance(other, DatFile0D):
             return False
         if self.variables != other.variables:
             return False
@@ -141,7 +141,7 @@ class DatFile0D(DatFileCommon):
 
     def __add__(self, other):
         both = super().__add__(other)
-        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, both.data)
+        return DatFile0D(both.source, both.metadata, both.parameters, both.variables, both.data)
 
 
 @dataclass
@@ -287,17 +287,15 @@ def combine_scan_lists(a: list, b: list):
 def combine_scan_data(a: ndarray, b: ndarray):
     if a.shape != b.shape:
         raise RuntimeError(f'Incompatible shapes {a.shape} and {b.shape}')
-    if a.ndim == 2:
-        from copy import deepcopy
-        # variables are _always_ (?) (..., I, I_err, N)
-        c = deepcopy(a)
-        c[-3:, :] = a[-3:, :] + b[-3:, :]
-        return c
-    elif a.ndim == 3:
-        # but 3-D _only_ contains (I, I_err, N)
-        return a + b
-    else:
+    if a.ndim not in (1, 2, 3):
         raise RuntimeError(f'Unexpected number of dimensions: {a.ndim}')
+    from numpy import hypot
+    # the last three variables are _always_ (?) (I, I_err, N), any before those are the same for both
+    c = a.copy()
+    c[-3:] = a[-3:] + b[-3:]
+    # the uncertainties are independent
+    c[-2] = hypot(a[-2], b[-2])
+    return c
 
 
 def combine_mccode_dats(dats: list):
-- 
2.43.0


From 21a0ba24926f35d99676e4cb32ed2849ed74db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 094/158] fix: combined detector files have equal parameters,
 and the total of their values

---
 src/mccode_antlr/loader/datfile.py | 39 ++++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index be766e1..41df7b6 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -87,8 +87,8 @@ class DatFileCommon:
     def __add__(self, other):
         if not self.safe_to_combine(other):
             raise RuntimeError('Cannot combine these two dat files')
-        metadata = combine_scan_dicts(self.metadata, other.metadata)
-        parameters = combine_scan_dicts(self.parameters, other.parameters)
+        metadata = combine_scan_metadata(self.metadata, other.metadata)
+        parameters = combine_scan_parameters(self.parameters, other.parameters)
         variables = combine_scan_lists(self.variables, other.variables)
         data = combine_scan_data(self.data, other.data)
         return DatFileCommon(Path(), metadata, parameters, variables, data)
@@ -256,28 +256,35 @@ def read_mccode_dat(filename: str | Path):
     return data_type(common.source, common.metadata, common.parameters, common.variables, common.data)
 
 
-def combine_scan_dicts(a: dict, b: dict):
-    from copy import deepcopy
-    c = deepcopy(a)
+def combine_scan_metadata(a: dict, b: dict):
+    from math import hypot
+    if set(a) != set(b):
+        raise RuntimeError(f'Metadata keys {set(a) ^ set(b)} are not in both')
     special_add = 'Ncount',
     special_concatenate = 'Directory', 'filename', 'Date', 'Seed'
-    special_ignore = 'signal', 'statistics', 'values'
+    special_ignore = 'signal', 'statistics'
+    c = dict(a)
     for k, v in b.items():
-        if any(s in k for s in special_add):
+        if k in special_add:
             c[k] = int(c[k]) + int(v)
-        elif any(s in k for s in special_concatenate):
-            if v not in c[k]:
+        elif k in special_concatenate:
+            if f' {v} ' not in f' {c[k]} ':
                 c[k] = f'{c[k]} {v}'
-        elif any(s in k for s in special_ignore):
-            pass
-        elif k in c:
-            if c[k] != v:
-                raise RuntimeError(f'Incompatible values for "{k}": {c[k]} and {v}')
-        else:
-            raise RuntimeError(f'Unexpected key {k} in {b}')
+        elif k == 'values':
+            # total intensity, its uncertainty, and number of events
+            (ai, ae, an), (bi, be, bn) = [[float(x) for x in y.split()] for y in (c[k], v)]
+            c[k] = f'{ai + bi} {hypot(ae, be)} {an + bn}'
+        elif k not in special_ignore and c[k] != v:
+            raise RuntimeError(f'Incompatible values for "{k}": {c[k]} and {v}')
     return c
 
 
+def combine_scan_parameters(a: dict, b: dict):
+    if a != b:
+        raise RuntimeError(f'Incompatible parameters {a} and {b}')
+    return dict(a)
+
+
 def combine_scan_lists(a: list, b: list):
     if a != b:
         raise RuntimeError(f'Incompatible lists {a} and {b}')
-- 
2.43.0


From bb648895c669fb6a6e5bfcd27919321616cb9c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 095/158] fix: a one dimensional detector with as many bins as
 variables is read by rows

---
 src/mccode_antlr/loader/datfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 41df7b6..44e5f6c 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -149,8 +149,8 @@ class DatFile1D(DatFileCommon):
     def __post_init__(self):
         nx = int(self.metadata['type'].split('(', 1)[1].strip(')'))
         nv = len(self.variables)
-        if self.data.shape == (nv, nx):
-            # shortcut in case we're already in the right shape (e.g., from __add__)
+        if nv != nx and self.data.shape == (nv, nx):
+            # shortcut in case we're already in the right shape
             return
         if self.data.shape[0] != nx or self.data.shape[1] != nv:
             raise RuntimeError(f'Unexpected data shape {self.data.shape} for metadata specifying {nx=} and {nv=}')
@@ -188,7 +188,9 @@ class DatFile1D(DatFileCommon):
 
     def __add__(self, other):
         both = super().__add__(other)
-        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, both.data)
+        # data is expected in the same orientation as in a file
+        data = both.data.transpose((1, 0))
+        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, data)
 
 
 @dataclass
-- 
2.43.0


From 7fb05a678e4e4b226e4d7cd280b15fe11a47cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 096/158] fix: the number of nodes of a parallel simulation is
 not a parameter

---
 src/mccode_antlr/loader/simfile.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 5e77c39..a0ebf8e 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass, field
-from typing import Union
+from typing import Optional, Union
 from pathlib import Path
 
 
@@ -128,6 +128,7 @@ class SimFileSimulation:
     Seed: int
     Directory: str
     Params: list[str] = field(default_factory=list)
+    Nodes: Optional[int] = None  # Only defined for parallel simulations
 
     @staticmethod
     def parse(contents: str):
@@ -139,17 +140,20 @@ class SimFileSimulation:
         keywords = ['Format', 'URL', 'Creator', 'Instrument', 'Ncount', 'Trace', 'Gravitation', 'Seed', 'Directory']
         format, url, creator, instrument, ncount, trace, gravitation, seed, directory = read_keywords(lines[1:10],
                                                                                                       keywords)
-        params = []
+        params, nodes = [], None
         for line in lines[10:]:
-            _, _, param = line.partition(':')
-            params.append(param.strip())
+            key, _, param = line.partition(':')
+            if key.strip() == 'Nodes':
+                nodes = int(param)
+            else:
+                params.append(param.strip())
         ncount = int(ncount)
         trace = trace == 'yes'
         gravitation = gravitation == 'yes'
         seed = int(seed)
         return SimFileSimulation(name=name, Format=format, URL=url, Creator=creator, Instrument=instrument,
                                  Ncount=ncount, Trace=trace, Gravitation=gravitation, Seed=seed, Directory=directory,
-                                 Params=params)
+                                 Params=params, Nodes=nodes)
 
     def to_file(self, file):
         print(f'begin simulation: {self.name}', file=file)
@@ -162,6 +166,8 @@ class SimFileSimulation:
         print(f"  Gravitation: {'yes' if self.Gravitation else 'no'}", file=file)
         print(f"  Seed: {self.Seed}", file=file)
         print(f"  Directory: {self.Directory}", file=file)
+        if self.Nodes is not None:
+            print(f"  Nodes: {self.Nodes}", file=file)
         for param in self.Params:
             print(f"  Param: {param}", file=file)
         print(f'end simulation', file=file)
-- 
2.43.0


From 34c5d27b0508d9d5d7dcdb77c0685e0923c8e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 097/158] fix: repeated simulations have different output
 directories, and simulations with different particle counts are not equal

---
 src/mccode_antlr/loader/simfile.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index a0ebf8e..cece9e0 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, fields
 from typing import Optional, Union
 from pathlib import Path
 
@@ -180,20 +180,22 @@ class SimFileSimulation:
             other.Trace == self.Trace and other.Gravitation == self.Gravitation and \
             other.Directory in self.Directory and all(p in self.Params for p in other.Params)
 
-    def __eq__(self, other):
-        if not isinstance(other, SimFileSimulation):
-            raise RuntimeError(f"Cannot compare simulation with {other}")
-        return other.name == self.name and other.Format == self.Format and other.URL == self.URL and \
-            other.Creator == self.Creator and other.Instrument == self.Instrument and \
-            other.Trace == self.Trace and other.Gravitation == self.Gravitation and \
-            other.Directory == self.Directory and all(p in self.Params for p in other.Params)
+    def is_repeat(self, other):
+        # Every run has its own output directory, which is its name as well
+        skip = ['name', 'Directory', 'Ncount', 'Seed', 'Params']
+        return all(getattr(self, f.name) == getattr(other, f.name) for f in fields(self) if f.name not in skip) and \
+            sorted(self.Params) == sorted(other.Params)
 
     def combine(self, other):
         from copy import deepcopy
-        if other == self:
+        if self.is_repeat(other):
             # combining a repeat which was done to improve statistics
             out = deepcopy(self)
             out.Ncount += other.Ncount
+            if other.name not in self.name:
+                out.name = f'{self.name} + {other.name}'
+            if other.Directory not in self.Directory:
+                out.Directory = f'{self.Directory} + {other.Directory}'
             if other.Seed == self.Seed:
                 from loguru import logger
                 logger.warning('combining two simulations with the same seed is not statistically valid')
-- 
2.43.0


From b2d236ebb2484762200ed433750c35f1e3c4043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 098/158] fix: errors of a summary combine in quadrature, and
 detectors without events can be combined

---
 src/mccode_antlr/loader/simfile.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index cece9e0..9f0fbaa 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -301,7 +301,7 @@ class SimFileData:
         return all(getattr(self, k) == getattr(other, k) for k in self.keywords if k not in skip)
 
     def combine(self, other):
-        from math import sqrt
+        from math import hypot, sqrt
         # this should only happen if the simulations are repeats of each other
         if not self.is_repeat(other):
             raise RuntimeError(f"Cannot combine non-repeated {self} with {other}")
@@ -316,12 +316,15 @@ class SimFileData:
             return [float(x.split('=')[1].split(';')[0]) for x in s.split(' ')]
 
         def split_values(v: str):
-            return [int(x) if x.is_integer() else x for x in [float(x) for x in v.split(' ')]]
+            return [int(x) if x.is_integer() else x for x in [float(x) for x in v.split()]]
 
         # The values line is always "{float} {float} {int}" which _I think_ is <intensity>, <error>, and event count
         s_intensity, s_error, s_counts = split_values(self.values)
         o_intensity, o_error, o_counts = split_values(other.values)
-        out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error + o_error)} {s_counts + o_counts}"
+        out.values = f"{s_intensity + o_intensity} {hypot(s_error, o_error)} {s_counts + o_counts}"
+
+        # the weight of each in any estimated mean
+        s_weight, o_weight = (s_counts, o_counts) if s_counts + o_counts else (1, 1)
 
         # The signal line is always? "None" or "Min={float}; Max={float}; Mean={float};"
         # we can combine min and max, but not mean (without knowing the number of points)
@@ -330,7 +333,7 @@ class SimFileData:
         else:
             s_min, s_max, s_mean = split_signal(self.signal)
             o_min, o_max, o_mean = split_signal(other.signal)
-            mean_estimate = (s_mean * s_counts + o_mean * o_counts)/(s_counts + o_counts)
+            mean_estimate = (s_mean * s_weight + o_mean * o_weight)/(s_weight + o_weight)
             out.signal = f"Min={min(s_min, o_min)}; Max={max(s_max, o_max)}; Mean={mean_estimate};"
 
         # Statistics: one of "None", "X0={float}; dX={float};" or "X0={float}; dX={float}; Y0={float}; dY={float};"
@@ -345,11 +348,11 @@ class SimFileData:
             for d in ('X', 'Y'):
                 d0, dd = f'{d}0', f'd{d}'
                 if d0 in s_stats and d0 in o_stats:
-                    stats[d0] = (s_stats[d0] * s_counts + o_stats[d0] * o_counts)/(s_counts + o_counts)
+                    stats[d0] = (s_stats[d0] * s_weight + o_stats[d0] * o_weight)/(s_weight + o_weight)
                 if dd in s_stats and dd in o_stats:
-                    sd = s_stats[dd] * s_counts
-                    od = o_stats[dd] * o_counts
-                    stats[dd] = sqrt(sd * sd + od * od) / (s_counts + o_counts)
+                    sd = s_stats[dd] * s_weight
+                    od = o_stats[dd] * o_weight
+                    stats[dd] = sqrt(sd * sd + od * od) / (s_weight + o_weight)
             out.statistics = ' '.join([f"{k}={stats[k]};" for k in ['X0', 'dX', 'Y0', 'dY'] if k in stats])
         return out
 
-- 
2.43.0


From 3956f21e17828f707788bf026a283d1336dafd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 099/158] fix: a remote registry finds files by their exact
 name

---
 src/mccode_antlr/reader/registry.py | 44 +++++++++++++----------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 4566780..4b733a4 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -134,40 +134,34 @@ class RemoteRegistry(Registry):
         contents = '(' + ', '.join([wp(n) + '=' + wv(v) for n, v in self.file_contents().items()]) + ')'
         print(wrapper.line(self.__class__.__name__, [contents], ''), file=output)
 
-    def known(self, name: str, ext: str = None, strict: bool = False):
+    def _named(self, name: str, ext: str = None) -> list[str]:
+        """The registered files with this name, possibly in further folders, the best match first"""
         compare = _name_plus_suffix(name, ext)
         # the files *in* the registry are already posix paths, so that makes life easier
-        if any(x.endswith(compare) for x in self.pooch.registry_files):
-            return True
-        # fall back to matching without the extension:
-        if any(Path(x).with_suffix('').as_posix().endswith(compare) for x in self.pooch.registry_files):
+        files = list(self.pooch.registry_files)
+        # first step, exact match:
+        found = [x for x in files if x == compare]
+        # second step, exact match to the last part(s) of the path:
+        found += [x for x in files if x.endswith(f'/{compare}')]
+        if ext is None and not Path(name).suffix:
+            # fall back to matching without the extension:
+            found += [x for x in files if Path(x).with_suffix('').as_posix() == compare]
+            found += [x for x in files if Path(x).with_suffix('').as_posix().endswith(f'/{compare}')]
+        return list(dict.fromkeys(found))
+
+    def known(self, name: str, ext: str = None, strict: bool = False):
+        if self._named(name, ext):
             return True
         # Or matching *any* file that contains name
         return False if strict else any(name in x for x in self.pooch.registry_files)
 
     def unique(self, name: str):
-        return sum(name in x for x in self.pooch.registry_files) == 1
+        return len(self._named(name)) == 1
 
     def fullname(self, name: str, ext: str = None, exact: bool = True):
-        compare = _name_plus_suffix(name, ext)
-        # the files *in* the registry are already posix paths, so that makes life easier
-        # first step, exact match:
-        for registry_file in self.pooch.registry_files:
-            if registry_file == compare:
-                return registry_file
-        # second step, exact match to filename:
-        for registry_file in self.pooch.registry_files:
-            if Path(registry_file).parts[-1] == compare:
-                return registry_file
-        # fall back to matching without the extension:
-        if not exact:
-            for registry_file in self.pooch.registry_files:
-                if Path(registry_file).with_suffix('').as_posix() == compare:
-                    return registry_file
-            # nearly-giving-up match filename without extension against the comparison
-            for registry_file in self.pooch.registry_files:
-                if Path(registry_file).with_suffix('').parts[-1] == compare:
-                    return registry_file
+        named = self._named(name, ext)
+        if named:
+            return named[0]
         # Or matching *any* file that contains name
         matches = list(filter(lambda x: name in x, self.pooch.registry_files))
         if len(matches) != 1:
-- 
2.43.0


From 51d6a6037f488260772051eac5b5622035770f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 100/158] fix: a remote registry can tell if a file is
 available

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 4b733a4..5ab928d 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -169,7 +169,7 @@ class RemoteRegistry(Registry):
         return matches[0]
 
     def is_available(self, name: str, ext: str = None, exact: bool = True):
-        return self.pooch.registry_files(self.fullname(name, ext, exact))
+        return self.known(name, ext, strict=exact)
 
     def path(self, name: str, ext: str = None, exact: bool = True) -> Path:
         return Path(self.pooch.fetch(self.fullname(name, ext, exact)))
-- 
2.43.0


From 025d25eb09052ee00801430aa5c8bf9b9e49ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 101/158] fix: a local registry finds files with any name, not
 those which match it as a pattern

---
 src/mccode_antlr/reader/registry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 5ab928d..f9fca98 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -288,10 +288,13 @@ class LocalRegistry(Registry):
         return self.root.glob(f'**/*.{filetype}')
 
     def _file_iterator(self, name: str):
-        return self.root.glob(f'**/{name}')
+        from glob import escape
+        # a file outside of the folder is not part of the registry
+        return iter(()) if Path(name).is_absolute() else self.root.glob(f'**/{escape(name)}')
 
     def _exact_file_iterator(self, name: str):
-        return self.root.glob(name)
+        from glob import escape
+        return iter(()) if Path(name).is_absolute() else self.root.glob(escape(name))
 
     def known(self, name: str, ext: str = None, strict: bool = False):
         compare = _name_plus_suffix(name, ext)
-- 
2.43.0


From af34541ec07ddb15ae937277471c7aa80e4481c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 102/158] fix: a local registry does not mistake a file without
 an extension for the one asked for

---
 src/mccode_antlr/reader/registry.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index f9fca98..39653cd 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -309,21 +309,8 @@ class LocalRegistry(Registry):
         is_compare = list(self._exact_file_iterator(compare))
         if len(is_compare) == 1:
             return is_compare[0]
-        # Complete match if name happens to be missing the extension
-        is_name = list(self._exact_file_iterator(name))
-        if len(is_name) == 1:
-            return is_name[0]
-        if not exact:
-            from loguru import logger
-            ends_with_compare = list(self._file_iterator(compare))
-            if len(ends_with_compare) == 1:
-                return ends_with_compare[0]
-            # Complete match if name happens to be missing the extension
-            ends_with_name = list(self._file_iterator(name))
-            if len(ends_with_name) == 1:
-                return ends_with_name[0]
-        # Or matching *any* file that contains name
-        matches = list(self._file_iterator(name))
+        # Match in any folder, which must be the only one
+        matches = list(self._file_iterator(compare))
         if len(matches) == 0:
             raise RuntimeError(f'No match for {compare} or {name} under {self.root}')
         if len(matches) != 1:
-- 
2.43.0


From 8f96f1aed3fd7ae0c07a30f6e1ad0806fd2daeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 103/158] fix: a local registry lists its files

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 39653cd..a89fb66 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -324,7 +324,7 @@ class LocalRegistry(Registry):
         return self.root.joinpath(self.fullname(name, ext, exact))
 
     def filenames(self) -> list[str]:
-        return [str(x) for x in self.root.glob('**')]
+        return [x.relative_to(self.root).as_posix() for x in self.root.glob('**/*') if x.is_file()]
 
     def __eq__(self, other):
         if not isinstance(other, Registry):
-- 
2.43.0


From 29e2391259a4f2e92382cb0b3f916856cf9f01e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 104/158] fix: an in-memory registry accepts a name which has
 the extension already

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index a89fb66..c88b8bf 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -361,7 +361,7 @@ class InMemoryRegistry(Registry):
         return list(self.components.keys())
 
     def fullname(self, name: str, ext: str | None = None):
-        full_name = name if ext is None else name + ext
+        full_name = _name_plus_suffix(name, ext)
         return full_name if full_name in self.components else None
 
     def known(self, name: str, ext: str | None = None, strict: bool = False):
-- 
2.43.0


From ea0898bb827736c78e08395393cc506f6709c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 105/158] fix: an in-memory registry knows which of its files
 are unique

---
 src/mccode_antlr/reader/registry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index c88b8bf..e10f911 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -370,6 +370,13 @@ class InMemoryRegistry(Registry):
             return True
         return False
 
+    def unique(self, name: str):
+        # there are no two files of the same name
+        return self.known(name)
+
+    def is_available(self, name: str, ext: str | None = None):
+        return self.known(name, ext)
+
     def path(self, name: str, ext: str | None = None) -> Path:
         full_name = self.fullname(name, ext=ext)
         if full_name is None:
-- 
2.43.0


From 939bc8df17a0e17071847d0b29c89630f8101a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 106/158] fix: only the named registries are used, and a file
 of the exact name precedes one with a similar name

---
 src/mccode_antlr/reader/reader.py | 48 ++++++++++++++-----------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index d06d85d..b625b5d 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -65,45 +65,41 @@ class Reader:
     def add_c_flags(self, flags):
         self.c_flags.append(flags)
 
-    def locate(self, name: str, which: str = None, ext: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.path(name, ext)
+    def _selected(self, which: str | list[str] | None = None):
+        """The registries, or only those of the specified name(s)"""
+        if which is None:
+            return self.registries
+        which = [which] if isinstance(which, str) else which
+        return [x for x in self.registries if x.name in which]
+
+    def _registry_with(self, name: str, which: str = None, ext: str = None, strict: bool = False):
+        """The first registry which has the named file, or else one with a similar name if not strict"""
+        registries = self._selected(which)
+        for only_named in (True,) if strict else (True, False):
+            for reg in registries:
+                if reg.known(name, ext, strict=only_named):
+                    return reg
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
         raise RuntimeError(f'{name} not found in {msg}')
 
+    def locate(self, name: str, which: str = None, ext: str = None, strict: bool = False):
+        return self._registry_with(name, which, ext, strict).path(name, ext)
+
     def contents(self, name: str, which: str = None, ext: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries
-                                                            if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.contents(name, ext)
-        names = [reg.name for reg in registries]
-        msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(
-            names)
-        raise RuntimeError(f'{name} not found in {msg}')
+        return self._registry_with(name, which, ext, strict).contents(name, ext)
 
     def fullname(self, name: str, which: str = None, ext: str=None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.fullname(name, ext)
-        names = [reg.name for reg in registries]
-        msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
-        raise RuntimeError(f'{name} not found in {msg}')
+        return self._registry_with(name, which, ext, strict).fullname(name, ext)
 
     def known(self, name: str, which: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        return any([reg.known(name, strict=strict) for reg in registries])
+        return any([reg.known(name, strict=strict) for reg in self._selected(which)])
 
     def unique(self, name: str, which: str = None):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        return sum([1 for reg in registries if reg.unique(name)]) == 1
+        return sum([1 for reg in self._selected(which) if reg.unique(name)]) == 1
 
     def contain(self, name: str, which: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
+        registries = self._selected(which)
         return [reg.name for reg in registries if reg.known(name, strict=strict)]
 
     def stream(self, name: str, which: str = None, strict: bool = False):
-- 
2.43.0


From 9d1fa6512ca79012fc15f815162a79010759cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 107/158] fix: an instrument is read from the file of exactly
 its name

---
 src/mccode_antlr/reader/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index b625b5d..29de39d 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -152,8 +152,9 @@ class Reader:
         if path.exists() and path.is_file():
             source = path.read_text()
         else:
-            path = self.locate(path.name)  # include the .instr for the search
-            source = self.contents(path.name)
+            instr_name = path.name  # include the .instr for the search
+            path = self.locate(instr_name, strict=True)
+            source = self.contents(instr_name, strict=True)
         filename = str(path.resolve())
 
         stream = InputStream(source)
-- 
2.43.0


From 851ae5b9d4f63f069794d518e18fcd7a9d046b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 108/158] fix: included files and dependencies are those of
 exactly the name

---
 src/mccode_antlr/instr/instr.py        | 2 +-
 src/mccode_antlr/translators/target.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index aff413b..6dd4876 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -226,7 +226,7 @@ class Instr:
         if not any(registry == LIBC_REGISTRY for registry in registries):
             registries.append(LIBC_REGISTRY)
         for registry in ordered_registries(registries):
-            if registry.known(filename):
+            if registry.known(filename, strict=True):
                 return registry.path(filename).absolute().resolve()
         return Path()
 
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index b4753f6..4789c3b 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -60,12 +60,12 @@ class TargetVisitor:
         if self.registries is None:
             return False
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        return any([reg.known(name) for reg in registries])
+        return any([reg.known(name, strict=True) for reg in registries])
 
     def locate(self, name: str, which: str = None):
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
         for reg in registries:
-            if reg.known(name):
+            if reg.known(name, strict=True):
                 return reg.path(name)
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
-- 
2.43.0


From a095598351a5311bf4a3e8fa3302179e4cbbffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 109/158] fix: files of an in-memory registry can be included

---
 src/mccode_antlr/translators/c.py      | 11 ++---------
 src/mccode_antlr/translators/target.py |  7 +++++++
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index c6a352b..29df445 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -54,15 +54,8 @@ def sort_include_hierarchy(includes: list[CInclude]):
 
 class CTargetVisitor(TargetVisitor, target_language='c'):
     def _file_contents(self, filename, preserve_escapes=False):
-        # First try the McCode C runtime libraries:
-        path = self.include_path(filename)
-        # Then any registries used in reading the file(s)
-        if not path.is_file() and self.known(filename):
-            path = self.locate(filename)
-        if not path.is_file():
-            raise RuntimeError(f"Can not include the file {filename} because it is not locatable")
-        with path.open('r') as file:
-            lines = [line.strip('\n') for line in file.readlines()]
+        # Any registries used in reading the file(s), which includes the McCode C runtime libraries:
+        lines = self.library_contents(filename).removesuffix('\n').split('\n')
         if preserve_escapes:
             lines = [line.encode('unicode-escape').decode('utf-8') for line in lines]
         return '\n'.join(lines)
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 4789c3b..a3347c2 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -71,6 +71,13 @@ class TargetVisitor:
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
         raise RuntimeError(f'{name} not found in {msg}')
 
+    def library_contents(self, filename: str):
+        """The text of a file, which does not need to exist outside of its registry"""
+        for reg in self.registries:
+            if reg.known(filename, strict=True):
+                return reg.contents(filename)
+        raise RuntimeError(f"Can not include the file {filename} because it is not locatable")
+
     def library_path(self, filename=None):
         return self.locate(filename)
 
-- 
2.43.0


From 0a0b7f1f9295c3399d13efc408904b7569a00b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 110/158] fix: the copies of components are relative to, and
 grouped with, each other

---
 src/mccode_antlr/instr/instr.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 6dd4876..a20c5f2 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -312,6 +312,16 @@ class Instr:
         # Then use the above decoder method to replace any instances of CMD, ENV, or GETPATH
         return [self._replace_env_getpath_cmd(flag) for flag in replaced_flags]
 
+    def _refer_to_own_components(self):
+        """Replace the components which positions and rotations refer to by those of the same name in this instrument"""
+        for instance in self.components:
+            at, at_ref = instance.at_relative
+            rotate, rotate_ref = instance.rotate_relative
+            if isinstance(at_ref, Instance) and self.has_component_named(at_ref.name):
+                instance.at_relative = at, self.get_component(at_ref.name)
+            if isinstance(rotate_ref, Instance) and self.has_component_named(rotate_ref.name):
+                instance.rotate_relative = rotate, self.get_component(rotate_ref.name)
+
     def copy(self, first=0, last=-1):
         """Return a copy of this instrument, optionally with only a subset of components"""
         from copy import deepcopy
@@ -321,13 +331,15 @@ class Instr:
         if last < 0:
             last += 1 + len(self.components)
         copy.components = tuple(x.copy() for x in self.components[first:last])
+        copy._refer_to_own_components()
         copy.included = tuple(x for x in self.included)
         copy.user = tuple(x.copy() for x in self.user)
         copy.declare = tuple(x.copy() for x in self.declare)
         copy.initialize = tuple(x.copy() for x in self.initialize)
         copy.save = tuple(x.copy() for x in self.save)
         copy.final = tuple(x.copy() for x in self.final)
-        copy.groups = {k: v.copy() for k, v in self.groups.items()}
+        if self.groups:
+            copy.determine_groups()
         copy.flags = tuple(x for x in self.flags)
         copy.registries = tuple(x for x in self.registries)
         return copy
-- 
2.43.0


From 27d41dba86998be2e79fb603594bcecdf7a2a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 111/158] fix: the absolute position of a component which is
 split from its reference is right in C, where angles are in radian

---
 src/mccode_antlr/instr/instr.py       |  5 +++--
 src/mccode_antlr/instr/orientation.py | 30 +++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index a20c5f2..6a4c595 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -362,6 +362,7 @@ class Instr:
             The first Instr has components up to and including the split-point.
             The second Instr has components starting from the split-point.
         """
+        from .orientation import Vector, Angles, c_trigonometry
         if isinstance(at, Instance):
             index = self.components.index(at)
         elif isinstance(at, str):
@@ -386,12 +387,12 @@ class Instr:
                 if second.has_component_named(at_rel.name):
                     instance.at_relative = instance.at_relative[0], second.get_component(at_rel.name)
                 else:
-                    instance.at_relative = instance.orientation.position(), None
+                    instance.at_relative = Vector(*[c_trigonometry(x) for x in instance.orientation.position()]), None
             if isinstance(rot_rel, Instance):
                 if second.has_component_named(rot_rel.name):
                     instance.rotate_relative = instance.rotate_relative[0], second.get_component(rot_rel.name)
                 else:
-                    instance.rotate_relative = instance.orientation.angles(), None
+                    instance.rotate_relative = Angles(*[c_trigonometry(x) for x in instance.orientation.angles()]), None
         if second.check_instrument_parameters(remove=remove_unused_parameters) and not remove_unused_parameters:
             logger.info(f'Instrument {second.name} has unused instrument parameters')
 
diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 0d6046e..2bdc501 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -375,6 +375,36 @@ def degree_to_radian(v: Expr):
     return v * Expr.float(pi / 180)
 
 
+def c_trigonometry(expr: Expr) -> Expr:
+    """The same value for use in C, the functions of which have angles in radian instead of in degrees"""
+    from ..common import BinaryOp, UnaryOp, TrinaryOp, Value, ObjectType
+
+    def call(name, *args):
+        return BinaryOp('__call__', Value(name, object_type=ObjectType.function), list(args))
+
+    def times(value, factor):
+        return BinaryOp('*', value, Value.id(factor))
+
+    def converted(x):
+        if isinstance(x, UnaryOp):
+            args = [converted(y) for y in x.value]
+            if x.op in ('sin', 'cos', 'tan'):
+                return call(x.op, *[times(y, 'DEG2RAD') for y in args])
+            if x.op in ('asin', 'acos', 'atan'):
+                return times(call(x.op, *args), 'RAD2DEG')
+            return x._copied(UnaryOp(x.op, args))
+        if isinstance(x, BinaryOp):
+            left, right = [converted(y) for y in x.left], [converted(y) for y in x.right]
+            if x.op == 'atan2':
+                return times(call(x.op, *left, *right), 'RAD2DEG')
+            return x._copied(BinaryOp(x.op, left, right))
+        if isinstance(x, TrinaryOp):
+            return x._copied(TrinaryOp(x.op, *[[converted(y) for y in z] for z in (x.first, x.second, x.third)]))
+        return x.copy()
+
+    return Expr([converted(x) for x in expr.expr])
+
+
 def _rotation_angles_to_axes_coordinates(rotated: Angles, degrees=True):
     cx, cy, cz = [cos_value(r if degrees else degree_to_radian(r), degrees=degrees) for r in rotated]
     sx, sy, sz = [sin_value(r if degrees else degree_to_radian(r), degrees=degrees) for r in rotated]
-- 
2.43.0


From 66524839bd76c48ea8ca750d331aa3f4b4d7fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 112/158] fix: the arguments of a made component instance are
 not mixed up

---
 src/mccode_antlr/instr/instr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 6a4c595..aee0ca4 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -409,8 +409,8 @@ class Instr:
             reader = Reader(registries=list(self.registries))
             component = reader.get_component(component)
             self.flags += tuple(reader.c_flags)
-        self.components += (Instance(name, component, at_relative, rotate_relative, orientation,
-                                     parameters, group, removable),)
+        self.components += (Instance(name, component, at_relative, rotate_relative, orientation=orientation,
+                                     parameters=parameters, group=group, removable=removable),)
 
     def mcpl_split(self,
                    after,
-- 
2.43.0


From d56c98babf2e7853c13c31f7659a1ce8b2de24a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 113/158] fix: an MCPL input takes the place of the component
 at which an instrument is split

---
 src/mccode_antlr/instr/instr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index aee0ca4..ef7f6b4 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -470,9 +470,14 @@ class Instr:
             logger.error("The split-at point should be positioned absolutely in the second instrument")
         # remove the first component before adding an-equal named one:
         second.components = second.components[1:]
-        second.make_instance(sc.name, input_component, sc.at_relative, sc.rotate_relative, parameters=input_parameters)
+        second.make_instance(sc.name, input_component, sc.at_relative, sc.rotate_relative, sc.orientation,
+                             input_parameters)
         # move the newly added component to the front of the list:
         second.components = (second.components[-1],) + second.components[:-1]
+        # and use it in place of the removed component
+        for part in (first, second):
+            part._refer_to_own_components()
+            part.determine_groups()
 
         return first, second
 
-- 
2.43.0


From f6ad452a368af3cf6d45841159c28333180957da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 114/158] fix: an instrument parameter used in USERVARS is not
 unused

---
 src/mccode_antlr/instr/instr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index ef7f6b4..2ae3e88 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -486,7 +486,7 @@ class Instr:
         for instance in self.components:
             if instance.parameter_used(name):
                 return True
-        for section in (self.declare, self.initialize, self.save, self.final):
+        for section in (self.user, self.declare, self.initialize, self.save, self.final):
             for block in section:
                 # A more complex check would see if the use itself leads to a parameter being used, but
                 # that would be language dependent and probably not worth the effort.
-- 
2.43.0


From 1ae9f6fbf05602a6d8cb026da3d96ab49164f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 115/158] fix: A negated product which starts with a minus sign
 is printed with parentheses

---
 src/mccode_antlr/common/expression.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index aa8c5bd..5abf065 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -218,6 +218,12 @@ def _is_negative(x):
     return isinstance(x, UnaryOp) and x.op == '-'
 
 
+def _starts_negative(x):
+    if _is_product(x) and isinstance(x, BinaryOp) and len(x.left) == 1:
+        return _starts_negative(x.left[0])  # printed as, e.g., -a * b
+    return _is_negative(x)
+
+
 def _wrap(string, operands, condition):
     return f'({string})' if len(operands) == 1 and condition(operands[0]) else string
 
@@ -641,7 +647,7 @@ class UnaryOp(Op):
         if '__not__' == self.op:
             return f'!{vstr}' if 'C' == self.style else f'not {vstr}'
         if any(x in self.op for x in '+-'):
-            vstr = _wrap(vstr, self.value, lambda x: _is_loose(x) or _is_negative(x))
+            vstr = _wrap(vstr, self.value, lambda x: _is_loose(x) or _starts_negative(x))
             return f'{self.op}{vstr}'
         return f'{self.op}({vstr})'
 
-- 
2.43.0


From 0340b0de6107ff7b108a7d61f0af1925ae1eb51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 116/158] fix: A parameter used within an expression which is a
 vector element is used

---
 src/mccode_antlr/common/expression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 5abf065..abb13f3 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -1103,7 +1103,8 @@ class Value:
         if self.is_id and isinstance(value, (str, Value)):
             return self.value == value
         if self.is_vector:
-            return value in self.value
+            # the elements of a vector are numbers or the text of an expression
+            return any(value == x or isinstance(x, str) and value in Expr.parse(x) for x in self.value)
         if self.is_str and isinstance(value, str) and (value[0] != '"' or value[-1] != '"'):
             # string Values are always wrapped in double quotes
             return self.value.strip('"') == value.strip('"')
-- 
2.43.0


From 51a76955b5064d9002162b8f10a07c455cb5c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 117/158] fix: Registries in memory, and the priority of every
 registry, are kept in HDF5 files

---
 src/mccode_antlr/io/hdf5.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 808f0fc..ca7c4e6 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -187,7 +187,7 @@ def RemoteRegistryIO(actual_type):
         @staticmethod
         def load(group, **kwargs) -> RemoteRegistry:
             _check_header(group, actual_type)
-            values = _standard_read(actual_type, group, actual_type.file_keys(), (), (), **kwargs)
+            values = _standard_read(actual_type, group, actual_type.file_keys() + ('priority',), (), (), **kwargs)
             try:
                 return actual_type(**values)
             except RuntimeError:
@@ -196,17 +196,33 @@ def RemoteRegistryIO(actual_type):
 
         @staticmethod
         def save(group, data, **kwargs):
-            _standard_save(actual_type, group, data, actual_type.file_keys(), (), **kwargs)
+            _standard_save(actual_type, group, data, actual_type.file_keys() + ('priority',), (), **kwargs)
 
     return _RemoteRegistryIO
 
 
+class InMemoryRegistryIO:
+    from mccode_antlr.reader.registry import InMemoryRegistry
+
+    @staticmethod
+    def load(group, **kwargs) -> InMemoryRegistry:
+        values = _standard_read(InMemoryRegistryIO.InMemoryRegistry, group, ('name', 'priority'), (), ('components',), **kwargs)
+        components = values.pop('components')
+        registry = InMemoryRegistryIO.InMemoryRegistry(**values)
+        registry.components = components
+        return registry
+
+    @staticmethod
+    def save(group, data, **kwargs):
+        _standard_save(InMemoryRegistryIO.InMemoryRegistry, group, data, ('name', 'priority'), ('components',), **kwargs)
+
+
 class LocalRegistryIO:
     from mccode_antlr.reader.registry import Registry, LocalRegistry
 
     @staticmethod
     def load(group, **kwargs) -> Registry:
-        values = _standard_read(LocalRegistryIO.LocalRegistry, group, ('name', 'root'), (), (), **kwargs)
+        values = _standard_read(LocalRegistryIO.LocalRegistry, group, ('name', 'root', 'priority'), (), (), **kwargs)
         try:
             return LocalRegistryIO.LocalRegistry(**values)
         except RuntimeError:
@@ -215,7 +231,7 @@ class LocalRegistryIO:
 
     @staticmethod
     def save(group, data, **kwargs):
-        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name',), (), **kwargs)
+        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name', 'priority'), (), **kwargs)
         if data.root is not None:
             group.attrs['root'] = data.root.as_posix()
 
@@ -412,6 +428,7 @@ class HDF5IO:
         'ModuleRemoteRegistry': RemoteRegistryIO(ModuleRemoteRegistry),
         'GitHubRegistry': RemoteRegistryIO(GitHubRegistry),
         'LocalRegistry': LocalRegistryIO,
+        'InMemoryRegistry': InMemoryRegistryIO,
         'ComponentParameter': _dataclass_io(ComponentParameter, attrs=('name',), required=('value',)),
         'Comp': _dataclass_io(Comp, attrs=('name', 'category', 'dependency', 'acc'),
                               optional=('define', 'setting', 'output', 'metadata', 'share', 'user',
-- 
2.43.0


From 9b3c49171f73b92fe869b7b50aee635527329f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 118/158] fix: The order and the keys of a dictionary are kept
 in HDF5 files

---
 src/mccode_antlr/io/hdf5.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index ca7c4e6..fe39d3c 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -380,14 +380,16 @@ class TupleIO:
 class DictIO:
     @staticmethod
     def load(group, **kwargs) -> dict:
+        # The members of a group are not ordered, and their names can not contain every character
         _check_header(group, dict)
-        return {k: HDF5IO.load(group=group[k], **kwargs) for k in group}
+        values = TupleIO.load(group['values'], **kwargs)
+        return dict(zip(TupleIO.load(group['keys']), values))
 
     @staticmethod
     def save(group, data: dict, **kwargs):
         _write_header(group, dict)
-        for k, v in data.items():
-            HDF5IO.save(group=group.create_group(k), data=v, **kwargs)
+        TupleIO.save(group.create_group('keys'), tuple(data.keys()))
+        TupleIO.save(group.create_group('values'), tuple(data.values()), **kwargs)
 
 
 def _direct_io(cls, convert=None):
-- 
2.43.0


From cef91730146d56ba3568bb1a53f0d1a36de487c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 119/158] fix: Operations which were given a type can be loaded
 from HDF5 files

---
 src/mccode_antlr/io/hdf5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index fe39d3c..f4c3a97 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -287,9 +287,8 @@ def _op_io(typename, fields: list[str]):
                 raise ValueError(f"Could not load values for {typename}")
             op = typename(attrs['op'], **values)
             op.style = attrs['style']
-            if op.data_type != DataType.from_name(attrs['data_type_name']):
-                raise ValueError(
-                    f"Loaded {typename} with data type {op.data_type}, but expected {attrs['data_type_name']}")
+            # the type could have been set after the operation was made
+            op.data_type = DataType.from_name(attrs['data_type_name'])
             return op
 
         @staticmethod
-- 
2.43.0


From 0fc6ccfa29a72df359213ddfdb91bdf7f42240d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 120/158] fix: Integers of any size are kept in HDF5 files

---
 src/mccode_antlr/io/hdf5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index f4c3a97..a706c29 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -403,6 +403,8 @@ def _direct_io(cls, convert=None):
         @staticmethod
         def save(group, data):
             _write_header(group, cls)
+            if isinstance(data, int) and not -2**63 <= data < 2**63:
+                data = str(data)  # there is no such HDF5 type
             group['entry'] = data
 
     return _DirectIO
-- 
2.43.0


From 3dc313acecccedf336606f25ae04f0309406196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 121/158] fix: The shape of an operation is kept in HDF5 files

---
 src/mccode_antlr/io/hdf5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index a706c29..4ea6b97 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -279,9 +279,9 @@ def _op_io(typename, fields: list[str]):
     class _OpIO:
         @staticmethod
         def load(group, **kwargs) -> typename:
-            from mccode_antlr.common.expression import DataType
+            from mccode_antlr.common.expression import DataType, ShapeType
             _check_header(group, typename)
-            attrs = {name: group.attrs.get(name) for name in ('op', 'style', 'data_type_name')}
+            attrs = {name: group.attrs.get(name) for name in ('op', 'style', 'data_type_name', 'shape_type_name')}
             values = {name: HDF5IO.load(group[name], **kwargs) for name in fields}
             if any(v is None for v in values.values()):
                 raise ValueError(f"Could not load values for {typename}")
@@ -289,6 +289,7 @@ def _op_io(typename, fields: list[str]):
             op.style = attrs['style']
             # the type could have been set after the operation was made
             op.data_type = DataType.from_name(attrs['data_type_name'])
+            op.shape_type = ShapeType.from_name(attrs['shape_type_name'])
             return op
 
         @staticmethod
@@ -298,6 +299,7 @@ def _op_io(typename, fields: list[str]):
                 if getattr(data, name) is not None:
                     group.attrs[name] = getattr(data, name)
             group.attrs['data_type_name'] = data.data_type.name
+            group.attrs['shape_type_name'] = data.shape_type.name
             for name in fields:
                 if getattr(data, name) is not None:
                     HDF5IO.save(group=group.create_group(name), data=getattr(data, name), **kwargs)
-- 
2.43.0


From ecb43345bb6835b30885945cb53aa1ec6e3c39af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 122/158] fix: The path of a file list is kept in HDF5 files

---
 src/mccode_antlr/io/hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 4ea6b97..16415d8 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -45,8 +45,9 @@ def _standard_read(typename, group, attrs, optional, required, **kwargs):
 def _standard_save(typename, group, data, attrs, fields, **kwargs):
     _write_header(group, typename)
     for name in attrs:
-        if getattr(data, name) is not None:
-            group.attrs[name] = getattr(data, name)
+        value = getattr(data, name)
+        if value is not None:
+            group.attrs[name] = value.resolve().as_posix() if isinstance(value, Path) else value
     for name in fields:
         if getattr(data, name) is not None:
             HDF5IO.save(group=group.create_group(name), data=getattr(data, name), **kwargs)
-- 
2.43.0


From 1cf6a88c5766c6173c1d30b470dfdcaddd5422c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 123/158] fix: Every point of a scan is run with its own values

---
 src/mccode_antlr/run/runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 0a09363..b9e71a0 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -177,14 +177,14 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
             # TODO Use the following line instead of the one after it when McCode is fixed to use zero-padded folder names
             # # runtime_arguments['dir'] = args["dir"].joinpath(str(number).zfill(n_zeros))
             this_directory = directory.joinpath(str(number))
-            pars = mccode_runtime_parameters(r_args, parameters)
+            pars = mccode_runtime_parameters(args, dict(zip(names, values)))
             r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run)
             results.append((r, d))
         return results
     else:
         directory.parent.mkdir(parents=True, exist_ok=True)
-        print(parameters)
-        pars = mccode_runtime_parameters(args, parameters)
+        values = next(iter(scan), ())
+        pars = mccode_runtime_parameters(args, dict(zip(names, values)))
         return mccode_run_compiled(binary, target, directory, pars, capture=capture, dry_run=dry_run)
 
 
-- 
2.43.0


From 7c1fdada60212dae761c619ea52bc714fd0634e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 124/158] fix: Values and directories which contain spaces are
 passed to the simulation unchanged

---
 src/mccode_antlr/compiler/c.py |  6 +++---
 src/mccode_antlr/run/runner.py | 17 ++++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index 0d772d9..1541e1d 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -276,7 +276,7 @@ def compile_instrument(
     return compile_c_instrument(instrument, target, output, replace, dump_source, **kwargs)
 
 
-def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, capture=False, dry_run: bool = False):
+def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: Union[str, list[str]], capture=False, dry_run: bool = False):
     from subprocess import run, CalledProcessError
     from platform import system
     from mccode_antlr.config import config
@@ -309,8 +309,8 @@ def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, c
     if not binary.exists():
         raise RuntimeError(f'Can not execute {binary} since it does not exist.')
 
-    # In normal operation, the binary is provided with options
-    command.extend([str(binary), *options.split()])
+    # In normal operation, the binary is provided with options; only those of a list can contain spaces
+    command.extend([str(binary), *(options.split() if isinstance(options, str) else options)])
     # which we then execute:
     if dry_run:
         logger.info(f'Would execute {command}')
diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index b9e71a0..7e18e79 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -49,10 +49,12 @@ def mccode_runtime_dict_to_args_list(args: dict) -> list[str]:
     return out
 
 
+def mccode_runtime_arguments(args: dict, params: dict) -> list[str]:
+    return mccode_runtime_dict_to_args_list(args) + [f'{k}={v}' for k, v in params.items()]
+
+
 def mccode_runtime_parameters(args: dict, params: dict) -> str:
-    first = ' '.join(mccode_runtime_dict_to_args_list(args))
-    second = ' '.join(f'{k}={v}' for k, v in params.items())
-    return f'{first} {second}'
+    return ' '.join(mccode_runtime_arguments(args, params))
 
 
 def sort_args(args: list[str]) -> list[str]:
@@ -147,12 +149,13 @@ def mccode_compile(instr, directory, generator, target: dict | None = None, conf
     return binary, def_target
 
 
-def mccode_run_compiled(binary, target, directory: Path | str, parameters: str, capture: bool = True, dry_run: bool = False):
+def mccode_run_compiled(binary, target, directory: Path | str, parameters: str | list[str], capture: bool = True, dry_run: bool = False):
     from mccode_antlr.compiler.c import run_compiled_instrument
     from mccode_antlr.loader import read_mccode_dat
     from pathlib import Path
 
-    result = run_compiled_instrument(binary, target, f'--dir {directory} {parameters}', capture=capture, dry_run=dry_run)
+    options = ['--dir', str(directory), *(parameters.split() if isinstance(parameters, str) else parameters)]
+    result = run_compiled_instrument(binary, target, options, capture=capture, dry_run=dry_run)
     sim_files = list(Path(directory).glob('**/*.dat'))
     dats = {file.stem: read_mccode_dat(file) for file in sim_files}
     return result, dats
@@ -177,14 +180,14 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
             # TODO Use the following line instead of the one after it when McCode is fixed to use zero-padded folder names
             # # runtime_arguments['dir'] = args["dir"].joinpath(str(number).zfill(n_zeros))
             this_directory = directory.joinpath(str(number))
-            pars = mccode_runtime_parameters(args, dict(zip(names, values)))
+            pars = mccode_runtime_arguments(args, dict(zip(names, values)))
             r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run)
             results.append((r, d))
         return results
     else:
         directory.parent.mkdir(parents=True, exist_ok=True)
         values = next(iter(scan), ())
-        pars = mccode_runtime_parameters(args, dict(zip(names, values)))
+        pars = mccode_runtime_arguments(args, dict(zip(names, values)))
         return mccode_run_compiled(binary, target, directory, pars, capture=capture, dry_run=dry_run)
 
 
-- 
2.43.0


From 5d41afbdc7528c4e998551246194c8869341dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 125/158] fix: The output directory of a scan can be given as
 text

---
 src/mccode_antlr/run/runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 7e18e79..9e25f08 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -171,6 +171,7 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
     if directory is None:
         from datetime import datetime
         directory = Path(f'{name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
+    directory = Path(directory)
 
     # if there is only one point, we don't need to scan
     if n_pts > 1:
-- 
2.43.0


From fa4bb456597e4fb9ace61933737f784b1524d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 126/158] fix: Instruments which are already compiled can be
 run

---
 src/mccode_antlr/run/runner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 9e25f08..4fa19ec 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -200,6 +200,7 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
                ):
     from os import access, R_OK
     from datetime import datetime
+    from mccode_antlr.compiler.c import CBinaryTarget
     if not isinstance(directory, Path):
         directory = Path(directory)
     if binary_name is not None:
@@ -214,6 +215,8 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
     if not binary_path.exists():
         config = {'enable_trace': trace, 'embed_instrument_file': source, 'verbose': verbose}
         binary_path, target = mccode_compile(instrument, binary_path, generator, target=target, config=config)
+    else:
+        target = CBinaryTarget(**target)
 
     runtime = dict(
         seed=seed,
@@ -264,8 +267,10 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     )
     # check if the filename is actually a compiled instrument already:
     if args.output_file is None and filename.exists() and access(filename, X_OK):
+        from mccode_antlr.compiler.c import CBinaryTarget
         binary = filename
         name = filename.stem
+        target = CBinaryTarget(**target)
     elif not filename.exists() or not access(filename, R_OK):
         raise RuntimeError(f'{filename} does not exist or is not readable')
     else:
-- 
2.43.0


From 5bb5c9fedc12061c0afdcf817710150e3a33a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 127/158] fix: The requested number of MPI processes is a
 number

---
 src/mccode_antlr/run/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 4fa19ec..cfc26e8 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -252,7 +252,7 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     target = dict(
         mpi=args.parallel,
         acc=args.gpu,
-        count=args.process_count,
+        count=args.process_count[0] if args.process_count else 0,
         nexus=False
     )
     runtime = dict(
-- 
2.43.0


From fbbc9236ee0e913c01c7fd2a4d20d53bb1377067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 128/158] fix: Options can be given before, between, and after
 the instrument file and its parameters

---
 src/mccode_antlr/run/runner.py | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index cfc26e8..4b90482 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -57,24 +57,6 @@ def mccode_runtime_parameters(args: dict, params: dict) -> str:
     return ' '.join(mccode_runtime_arguments(args, params))
 
 
-def sort_args(args: list[str]) -> list[str]:
-    """Take the list of arguments and sort them into the correct order for McCode run."""
-    # TODO this is a bit of a hack, but it works for now
-    first, last = [], []
-    k = 0
-    while k < len(args):
-        if args[k].startswith('-'):
-            first.append(args[k])
-            k += 1
-            if '=' not in first[-1] and k < len(args) and not args[k].startswith('-') and '=' not in args[k]:
-                first.append(args[k])
-                k += 1
-        else:
-            last.append(args[k])
-            k += 1
-    return first + last
-
-
 def mccode_run_script_parser(prog: str):
     from argparse import ArgumentParser
     from pathlib import Path
@@ -122,10 +104,8 @@ def print_version_information():
 
 
 def parse_mccode_run_script(prog: str):
-    import sys
     from .range import parse_scan_parameters
-    sys.argv[1:] = sort_args(sys.argv[1:])
-    args = mccode_run_script_parser(prog).parse_args()
+    args = mccode_run_script_parser(prog).parse_intermixed_args()
     parameters = parse_scan_parameters(args.parameters)
     return args, parameters
 
-- 
2.43.0


From e0ca3ff9bd74fc0601f5a087c6d5016176410ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 129/158] fix: mcstas_run and mcxtrace_run run the instrument

---
 src/mccode_antlr/run/runner.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 4b90482..7a57c7f 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -296,12 +296,10 @@ def mcxtrace_cmd():
 
 
 def mcstas_run(instrument, directory):
-    from mccode_antlr.reader import MCSTAS_REGISTRY
     from mccode_antlr.translators.target import MCSTAS_GENERATOR
-    mccode_run(instrument, directory, MCSTAS_REGISTRY, MCSTAS_GENERATOR)
+    mccode_run(instrument, MCSTAS_GENERATOR, {}, directory)
 
 
 def mcxtrace_run(instrument, directory):
-    from mccode_antlr.reader import MCXTRACE_REGISTRY
     from mccode_antlr.translators.target import MCXTRACE_GENERATOR
-    mccode_run(instrument,  directory, MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
+    mccode_run(instrument, MCXTRACE_GENERATOR, {}, directory)
-- 
2.43.0


From 7ed46a6ac6ce12d1a2f15090c039ce60531eacdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 130/158] fix: Text which only contains the name of a
 dependency directive is not a directive

---
 src/mccode_antlr/instr/instr.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 2ae3e88..a0399be 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -255,15 +255,14 @@ class Instr:
             return environ.get(chars, '')
 
         def replace(chars, start, replacer):
-            if start not in chars:
+            # the name alone can be part of any other flag, e.g., -DENVIRONMENT
+            if start + '(' not in chars:
                 return chars
-            before, after = chars.split(start, 1)
-            if '(' != after[0]:
-                raise ValueError(f'Missing opening parenthesis in dependency string after {start}')
+            before, after = chars.split(start + '(', 1)
             if ')' not in after:
                 raise ValueError(f'Missing closing parenthesis in dependency string after {start}')
-            dep, after = after[1:].split(')', 1)
-            if start in dep:
+            dep, after = after.split(')', 1)
+            if start + '(' in dep:
                 raise ValueError(f'Nested {start} in dependency string')
             return before + replacer(dep) + replace(after, start, replacer)
 
-- 
2.43.0


From a65b4ef763ae1318175c82b6b7941c4004a77c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 131/158] fix: Configured flags replace their keyword in
 dependencies literally

---
 src/mccode_antlr/instr/instr.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index a0399be..c365792 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -273,24 +273,25 @@ class Instr:
 
     def _replace_keywords(self, flag):
         from mccode_antlr.config import config
-        from re import sub, findall
-        if '@NEXUSFLAGS@' in flag:
-            flag = sub(r'@NEXUSFLAGS@', config['flags']['nexus'].as_str_expanded(), flag)
+        from re import sub
         if '@MCCODE_LIB@' in flag:
             print(f'The instrument {self.name} uses @MCCODE_LIB@ dependencies which no longer work.')
             print('Expect problems at compilation.')
-            flag = sub('@MCCODE_LIB@', '.', flag)
-        general_re = r'@(\w+)@'
-        for replace in findall(general_re, flag):
+            flag = flag.replace('@MCCODE_LIB@', '.')
+
+        def replacement(match):
+            replace = match.group(1).lower()
             # Is this replacement something like XXXFLAGS?
-            if replace.lower().endswith('flags') and replace.lower()[:-5] in config['flags']:
-                flag = sub(f'@{replace}@', config['flags'][replace.lower()[:-5]].as_str_expanded(), flag)
-            elif replace.lower().endswith('flags'):
+            if replace.endswith('flags') and replace[:-5] in config['flags']:
+                return config['flags'][replace[:-5]].as_str_expanded()
+            if replace.endswith('flags'):
                 # Punt, and just replace with the lowercase version of the keyword -- hopefully this was intended
-                flag = sub(f'@{replace}@', f'-l{replace.lower()[:-5]}', flag)
-            else:
-                logger.warning(f'Unknown keyword @{replace}@ in dependency string')
-        return flag
+                return f'-l{replace[:-5]}'
+            logger.warning(f'Unknown keyword {match.group(0)} in dependency string')
+            return match.group(0)
+
+        # the value returned by a function is inserted as it is, including any backslashes
+        return sub(r'@(\w+)@', replacement, flag)
 
     @property
     def unique_flags(self) -> list[str]:
-- 
2.43.0


From 864b2cadbe77f300f3b34eea9c219422cc85a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 132/158] fix: An instrument has only the flags of its own
 components if its reader reads several instruments

---
 src/mccode_antlr/reader/reader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index 29de39d..d65ef1a 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -40,7 +40,8 @@ def make_reader_error_listener(super_class, filetype, name, source, pre=5, post=
 class Reader:
     registries: list[Registry] = field(default_factory=list)
     components: dict[str, Comp] = field(default_factory=dict)
-    c_flags: list[str] = field(default_factory=list)
+    c_flags: list[str] = field(default_factory=list)  # of all components used since starting to read an instrument
+    component_flags: dict[str, list[str]] = field(default_factory=dict)  # for each of the known components
 
     def __post_init__(self):
         from .registry import ordered_registries
@@ -120,7 +121,13 @@ class Reader:
         tree = McComp_parse(stream, 'prog', error_listener)
 
         visitor = CompVisitor(self, filename, instance_name=current_instance_name)  # The visitor needs to be able to call *this* method
-        res = visitor.visitProg(tree)
+        # the flags of this component include those of any component which it copies
+        previous_flags, self.c_flags = self.c_flags, []
+        try:
+            res = visitor.visitProg(tree)
+            self.component_flags[name] = self.c_flags
+        finally:
+            self.c_flags = previous_flags
         if not isinstance(res, Comp):
             raise RuntimeError(f'Parsing component file {filename} did not produce a component object!')
         if res.category is None:
@@ -135,6 +142,7 @@ class Reader:
     def get_component(self, name: str, current_instance_name=None):
         if name not in self.components:
             self.add_component(name, current_instance_name=current_instance_name)
+        self.c_flags.extend(flag for flag in self.component_flags.get(name, ()) if flag not in self.c_flags)
         return self.components[name]
 
     def get_instrument(self, name: str | Path, destination=None, mode: Mode | None = None):
@@ -157,6 +165,9 @@ class Reader:
             source = self.contents(instr_name, strict=True)
         filename = str(path.resolve())
 
+        if destination is None:
+            # flags of any previously read instrument are not those of this one
+            self.c_flags = []
         stream = InputStream(source)
         error_listener = make_reader_error_listener(
             McInstr_ErrorListener, 'Instrument', name, source
-- 
2.43.0


From 6779b7afb47cec64523557acfb8f6ca2a8f78e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 133/158] fix: A dependency path which contains spaces is one
 argument of the compiler

---
 src/mccode_antlr/compiler/c.py  | 3 ++-
 src/mccode_antlr/instr/instr.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index 1541e1d..2cd24c2 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -95,10 +95,11 @@ def linux_split_flags(instrument: Instr, target: CBinaryTarget):
     # the type of binary requested determines (some of) the required flags:
     compiler_flags = target.flags + target.extra_flags
     linker_flags = target.linker_flags
+    from shlex import split
     # the instrument-defined flags are always(?) linker flags:
     # the flags in an instrument *might* contain ENV, CMD, GETPATH directives which need to be expanded via decode:
     linker_flags.extend(
-        [word for flag in instrument.decoded_flags() for word in flag.split()])
+        [word for flag in instrument.decoded_flags() for word in split(flag)])
 
     # Why is this addition necessary?
     if any('OPENACC' in word for word in compiler_flags) and any(
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index c365792..d50854d 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -236,7 +236,9 @@ class Instr:
         # Mimics McCode-3/tools/Python/mccodelib/cflags.py:evaluate_dependency_str
         #
         def getpath(chars):
-            return self._getpath(chars).as_posix()
+            from shlex import quote
+            # which only adds quotes to a path with special characters, like spaces
+            return quote(self._getpath(chars).as_posix())
 
         def eval_cmd(chars):
             from subprocess import run, CalledProcessError
-- 
2.43.0


From a67d526b476f81a6052492c4fbc24f93d9ea04c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 134/158] fix: An empty dependency string is not printed as
 None

---
 src/mccode_antlr/common/textwrap.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index 46fb730..d13d7ca 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -139,7 +139,6 @@ class TextWrapper(BaseWrapper):
         return '\n'.join(self.wrap(f'{name} {sep.join(items)}'))
 
     def quoted_line(self, name: str, items: list[str], sep: str = ' ') -> str:
-        items = [item or 'None' for item in items]
         return '\n'.join(self.wrap(f'{name} "{sep.join(items)}"'))
 
     def lines(self, items: list[str]) -> str:
-- 
2.43.0


From 7eb418abceb04a42aef642b3dd6ef3d53985e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 135/158] fix: An instrument parsed from text has the
 registries which it searches

---
 src/mccode_antlr/loader/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index 5aaffce..b68dc1c 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -23,7 +23,8 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
     instr.flags += tuple(reader.c_flags)
-    instr.registries += tuple(registries)
+    # which includes any added by the SEARCH keyword
+    instr.registries += tuple(reader.registries)
     return instr
 
 
-- 
2.43.0


From 51ac94026b5f4abdeb55fe05bf472424ef47b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 136/158] fix: The registries of an instrument are used in the
 same order for all of its files

---
 src/mccode_antlr/instr/instr.py   | 6 ++++--
 src/mccode_antlr/translators/c.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index d50854d..c41e7d2 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -220,12 +220,12 @@ class Instr:
     def _getpath(self, filename: str):
         from pathlib import Path
         from ..reader import LIBC_REGISTRY
-        from ..reader.registry import ordered_registries
         # dependencies can be part of the C library, which is always available for translation
         registries = list(self.registries)
         if not any(registry == LIBC_REGISTRY for registry in registries):
             registries.append(LIBC_REGISTRY)
-        for registry in ordered_registries(registries):
+        # the order of the registries is that in which component definitions were searched for
+        for registry in registries:
             if registry.known(filename, strict=True):
                 return registry.path(filename).absolute().resolve()
         return Path()
@@ -409,6 +409,8 @@ class Instr:
         if isinstance(component, str):
             from ..reader import Reader
             reader = Reader(registries=list(self.registries))
+            # keep their order, which is not necessarily that of their priorities
+            reader.registries = list(self.registries) or reader.registries
             component = reader.get_component(component)
             self.flags += tuple(reader.c_flags)
         self.components += (Instance(name, component, at_relative, rotate_relative, orientation=orientation,
diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 29df445..0b047cf 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -206,11 +206,11 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
         """
         # Make sure the registry list contains the C library registry, so that we can find and include files
         from packaging.version import Version
-        from ..reader.registry import ordered_registries
+        # The order of the others is that in which component definitions were searched for
         registries = list(self.registries)
         if not any(reg == LIBC_REGISTRY for reg in registries):
             registries.append(LIBC_REGISTRY)
-        self._registries = tuple(ordered_registries(registries))
+        self._registries = tuple(registries)
 
         # Check that the LIBC registry is not too old for current translation
         for reg in self.registries:
-- 
2.43.0


From 9cc0271f2f0b7b3f88006b281503f8c5acd9cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 137/158] fix: The configuration commands report and save the
 combined values of all sources

---
 src/mccode_antlr/cli/management.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 40df507..83d2774 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -11,27 +11,26 @@ def config_list(regex):
     from pathlib import Path
     from mccode_antlr.config import config as c
     config_dir = Path(c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
-    print(config_dump(d))
+    print(config_dump(c.flatten()))
 
 
 def config_get(key, verbose):
     from mccode_antlr.config import config as c
+    # a group of values can be partly defined in each of several sources
+    d = c.flatten()
     if key:
         levels = key.split('.')
         depth = []
         for level in levels:
-            if level in c:
-                c = c[level]
+            if isinstance(d, dict) and level in d:
+                d = d[level]
                 depth.append(level)
             elif verbose:
                 print(f'Full key {key} not found in config.')
-                print(f'  {level} not in {".".join(depth)}.{list(c)}')
+                print(f'  {level} not in {".".join(depth)}.{list(d) if isinstance(d, dict) else []}')
                 return
             else:
                 return
-    d = c.get()
-    if key:
         d = {key: d}
     print(config_dump(d))
 
@@ -56,7 +55,7 @@ def config_save(path, verbose):
     from pathlib import Path
     from mccode_antlr.config import config as c
     config_dir = Path(path or c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
+    d = c.flatten()
     config_file = config_dir.joinpath('config.yaml')
     with config_file.open('w') as file:
         file.write(config_dump(d))
-- 
2.43.0


From e15d6cb69c65a9d1108cf02c01b3461468f7d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 138/158] fix: The regular expression of the config list
 command selects keys

---
 src/mccode_antlr/cli/management.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 83d2774..257eef3 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -7,11 +7,23 @@ def config_dump(config):
     return dump(config)
 
 
+def config_select(values, regex, parents=()):
+    """The values of which the full key, with levels separated by '.', matches the regular expression"""
+    from re import search
+    selected = {}
+    for name, value in values.items():
+        levels = *parents, str(name)
+        if search(regex, '.'.join(levels)):
+            selected[name] = value
+        elif isinstance(value, dict) and (some := config_select(value, regex, levels)):
+            selected[name] = some
+    return selected
+
+
 def config_list(regex):
-    from pathlib import Path
     from mccode_antlr.config import config as c
-    config_dir = Path(c.config_dir())
-    print(config_dump(c.flatten()))
+    d = c.flatten()
+    print(config_dump(d if regex is None else config_select(d, regex)))
 
 
 def config_get(key, verbose):
-- 
2.43.0


From d54e987aa846170c92ea5129e7e64f4afa2348e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 139/158] fix: The config set and unset commands change the
 configuration file of the user

---
 src/mccode_antlr/cli/management.py | 50 +++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 257eef3..6668da4 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -47,20 +47,54 @@ def config_get(key, verbose):
     print(config_dump(d))
 
 
+def user_config_read():
+    from pathlib import Path
+    from yaml import safe_load
+    from mccode_antlr.config import config as c
+    config_file = Path(c.user_config_path())
+    return (safe_load(config_file.read_text(encoding='utf-8')) or {}) if config_file.exists() else {}
+
+
+def user_config_write(values):
+    from pathlib import Path
+    from mccode_antlr.config import config as c
+    Path(c.user_config_path()).write_text(config_dump(values), encoding='utf-8')
+
+
 def config_set(key, value):
     from mccode_antlr.config import config as c
-    levels = key.split('.')
-    for level in levels:
+    *parents, last = key.split('.')
+    # only the set value is stored, so that any others keep following their defaults
+    user = branch = user_config_read()
+    for level in parents:
+        branch = branch.setdefault(level, {})
+        if not isinstance(branch, dict):
+            raise RuntimeError(f'Can not set {key} since {level} has a value')
+    branch[last] = value
+    user_config_write(user)
+    # use the new value here as well
+    for level in parents:
         c = c[level]
-    c.set(value)
+    c[last].set(value)
 
 
 def config_unset(key):
-    from mccode_antlr.config import config as c
-    levels = key.split('.')
-    for level in levels:
-        c = c[level]
-    del c
+    *parents, last = key.split('.')
+    user = user_config_read()
+    branches = [user]
+    for level in parents:
+        branch = branches[-1].get(level)
+        if not isinstance(branch, dict):
+            return
+        branches.append(branch)
+    if last not in branches[-1]:
+        return
+    del branches[-1][last]
+    # remove any levels without values
+    for parent, level, branch in zip(branches[-2::-1], parents[::-1], branches[:0:-1]):
+        if not branch:
+            del parent[level]
+    user_config_write(user)
 
 
 def config_save(path, verbose):
-- 
2.43.0


From 6fe9e355f8c689f1b0d95a0b8841d418af556feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 140/158] fix: The cache commands only accept names of caches

---
 src/mccode_antlr/cli/management.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 6668da4..dc29922 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -142,13 +142,23 @@ def cache_path():
     return os_cache(f'mccode_antlr')
 
 
-def cache_remove(name, version, force):
-    from shutil import rmtree
+def cache_entry(*names):
+    """The path of one cache, one version of a cache, or the folder of all caches"""
+    from pathlib import Path
     path = cache_path()
-    if name is not None:
+    for name in names:
+        if name is None:
+            continue
+        if name in ('', '.', '..') or Path(name).name != name:
+            # which would refer to something else, possibly not even inside the cache folder
+            raise RuntimeError(f'"{name}" is not the name of a cache or version')
         path = path.joinpath(name)
-    if version is not None:
-        path = path.joinpath(version)
+    return path
+
+
+def cache_remove(name, version, force):
+    from shutil import rmtree
+    path = cache_entry(name, version)
     if not force:
         response = input(f'Remove {path} and all contents? [yN] ')
         if 'yes' == response.lower() or 'y' == response.lower():
@@ -158,10 +168,8 @@ def cache_remove(name, version, force):
 
 
 def cache_list(name, long):
-    path = cache_path()
-    if name is not None:
-        path = path.joinpath(name)
-    dirs = sorted([d for d in path.iterdir() if d.is_dir()], key=lambda x: x.name)
+    path = cache_entry(name)
+    dirs = sorted([d for d in path.iterdir() if d.is_dir()], key=lambda x: x.name) if path.is_dir() else []
     dstr = '\n'.join(f'  {d if long else d.name}' for d in dirs)
     n = len(dirs)
     c = 'cache' if n == 1 else 'caches'
-- 
2.43.0


From 73ddf23b12771bd0319a3cbc6589a96cf4261d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 141/158] fix: A file, expression, or parameter with syntax
 errors is refused

---
 src/mccode_antlr/grammar/mccode_parse.py   | 24 ++++++++++++++++++++--
 src/mccode_antlr/grammar/mccomp_parse.py   |  5 +++--
 src/mccode_antlr/grammar/mcinstr_parse.py  |  5 +++--
 src/mccode_antlr/translators/c_listener.py |  3 ++-
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/grammar/mccode_parse.py b/src/mccode_antlr/grammar/mccode_parse.py
index d9944c7..26bd03a 100644
--- a/src/mccode_antlr/grammar/mccode_parse.py
+++ b/src/mccode_antlr/grammar/mccode_parse.py
@@ -6,25 +6,45 @@ from antlr4.tree.Tree import ParseTree
 from antlr4.error.ErrorListener import ErrorListener
 
 
+class SyntaxErrorCollector(ErrorListener):
+    def __init__(self):
+        self.messages = []
+
+    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
+        self.messages.append(f'{msg} at {line},{column}')
+
+
 def parse(
         lexer_class,
         parser_class,
         stream:InputStream,
         entry_rule_name:str,
-        error_listener: ErrorListener | None = None
+        error_listener: ErrorListener | None = None,
+        recover: bool = False
 ) -> ParseTree:
+    """Parse the stream, raising an error if that is not possible
+
+    ANTLR reports syntax errors and then recovers by ignoring, or making up, part of the input. The result is only
+    returned if `recover` is true.
+    """
+    errors = SyntaxErrorCollector()
     lexer = lexer_class(stream)
     if error_listener is not None:
         lexer.removeErrorListeners()
         lexer.addErrorListener(error_listener)
+    lexer.addErrorListener(errors)
     token_stream = CommonTokenStream(lexer)
 
     parser = parser_class(token_stream)
     if error_listener is not None:
         parser.removeErrorListeners()
         parser.addErrorListener(error_listener)
+    parser.addErrorListener(errors)
 
     entry_rule_func = getattr(parser, entry_rule_name, None)
     if not isinstance(entry_rule_func, types.MethodType):
         raise ValueError("Invalid entry_rule_name '%s'" % entry_rule_name)
-    return entry_rule_func()
\ No newline at end of file
+    tree = entry_rule_func()
+    if errors.messages and not recover:
+        raise RuntimeError(f'Syntax error: {"; ".join(errors.messages)}')
+    return tree
diff --git a/src/mccode_antlr/grammar/mccomp_parse.py b/src/mccode_antlr/grammar/mccomp_parse.py
index 82350e3..b9adce2 100644
--- a/src/mccode_antlr/grammar/mccomp_parse.py
+++ b/src/mccode_antlr/grammar/mccomp_parse.py
@@ -8,9 +8,10 @@ from antlr4.error.ErrorListener import ErrorListener
 def parse(
         stream: InputStream,
         entry_rule_name: str,
-        error_listener: ErrorListener | None = None
+        error_listener: ErrorListener | None = None,
+        recover: bool = False
 ) -> ParseTree:
     from .McCompParser import McCompParser
     from .McCompLexer import McCompLexer
     from .mccode_parse import parse as p
-    return p(McCompLexer, McCompParser, stream, entry_rule_name, error_listener)
+    return p(McCompLexer, McCompParser, stream, entry_rule_name, error_listener, recover)
diff --git a/src/mccode_antlr/grammar/mcinstr_parse.py b/src/mccode_antlr/grammar/mcinstr_parse.py
index 15d0111..95cdc35 100644
--- a/src/mccode_antlr/grammar/mcinstr_parse.py
+++ b/src/mccode_antlr/grammar/mcinstr_parse.py
@@ -8,9 +8,10 @@ from antlr4.error.ErrorListener import ErrorListener
 def parse(
         stream: InputStream,
         entry_rule_name: str,
-        error_listener: ErrorListener | None = None
+        error_listener: ErrorListener | None = None,
+        recover: bool = False
 ) -> ParseTree:
     from .McInstrParser import McInstrParser
     from .McInstrLexer import McInstrLexer
     from .mccode_parse import parse as p
-    return p(McInstrLexer, McInstrParser, stream, entry_rule_name, error_listener)
+    return p(McInstrLexer, McInstrParser, stream, entry_rule_name, error_listener, recover)
diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 8143a1a..11b2108 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -522,7 +522,8 @@ def evaluate_c_defined_variables(
     lines = [f'{line};' for line in initialized_in.split(';') if len(line.strip())]
     found = {} if known is None else known
     for line in lines:
-        tree = McInstr_parse(InputStream(line), 'assignment', make_error_listener(McInstr_ErrorListener, line))
+        tree = McInstr_parse(InputStream(line), 'assignment', make_error_listener(McInstr_ErrorListener, line),
+                             recover=True)
         visitor = EvalCVisitor(found=found, verbose=verbose)
         visitor.visitAssignment(tree)
         found = visitor.assigned
-- 
2.43.0


From 003e9e1441c9780b12c963d30f98b2f178b8ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 142/158] fix: A component can not be placed relative to an
 unknown component

---
 src/mccode_antlr/instr/visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index f7fb13d..08036ce 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -264,13 +264,14 @@ class InstrVisitor(McInstrVisitor):
                 return self.destination.last_component(count - instances, removable_ok=True)
             else:
                 logger.error(f'Too large PREVIOUS count {count} for instrument with {instances} component instances')
+                return None  # McCode uses ABSOLUTE instead of an invalid PREVIOUS
         name = str(ctx.Identifier())
         if any(inst.name == name for inst in self.state.components):
             return self.state.get_component(name)
         elif self.destination is not None:
             return self.destination.get_component(name)
         else:
-            logger.error(f'Unknown component reference for instance named {name}')
+            raise RuntimeError(f'Unknown component reference for instance named {name}')
 
     def visitCoords(self, ctx: McInstrParser.CoordsContext):
         # FIXME 2023-10-16 previously Coordinate parsing forced all returned Expression objects to be floats
-- 
2.43.0


From 252725de2e65bdf0ec48aeb3f1fa1d31964076f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 143/158] fix: A component can not be translated if a parameter
 without default has no value

---
 src/mccode_antlr/instr/instance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 5f962e1..7f3a756 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -163,6 +163,11 @@ class Instance:
         """Check for identifiers that match instrument parameter names in the parameters, placement, WHEN, SPLIT, and
         JUMP expressions, and flag them as parameter objects"""
         instrument_parameter_names = [x.name for x in instrument_parameters]
+        for par in self.type.define + self.type.setting:
+            value = self.get_parameter(par.name).value
+            if value.is_constant and not value.has_value and not value.is_vector:
+                raise RuntimeError(f'{self.name} has no value for the parameter {par.name} of {self.type.name}, which '
+                                   f'has no default')
         for par in self.parameters:
             par.value.verify_parameters(instrument_parameter_names)
         exprs = [*self.at_relative[0], *self.rotate_relative[0], self.when, self.split]
-- 
2.43.0


From 738ee8c46045c108118bac18a2bab78a511d6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 144/158] fix: A missing expression is refused, it is not an
 empty string

---
 src/mccode_antlr/common/visitor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index a89f618..386a26b 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -165,6 +165,11 @@ def visitExpressionBinaryGreater(obj, ctx):
     return Expr(BinaryOp('__gt__', left, right))
 
 def visitExpressionString(obj, ctx):
+    if not ctx.StringLiteral():
+        # the grammar allows for nothing, but only the arguments of a function call can be
+        call = ctx.parentCtx
+        if not isinstance(getattr(call, 'args', None), list) or len(call.args) != 1:
+            raise RuntimeError(f'An expression is missing at {ctx.start.line},{ctx.start.column}')
     # remove only the enclosing quotes -- the string itself could start or end in an (escaped) quote
     strings = ''.join(str(sl)[1:-1] for sl in ctx.StringLiteral())
     return Expr.str(f'"{strings}"')
-- 
2.43.0


From 5c16d51561e6b762a83487641f4a44971c0d6b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 145/158] fix: Text which follows an expression or a parameter
 is refused, not ignored

---
 src/mccode_antlr/grammar/mccode_parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/grammar/mccode_parse.py b/src/mccode_antlr/grammar/mccode_parse.py
index 26bd03a..e2bb435 100644
--- a/src/mccode_antlr/grammar/mccode_parse.py
+++ b/src/mccode_antlr/grammar/mccode_parse.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import types
-from antlr4 import InputStream, CommonTokenStream
+from antlr4 import InputStream, CommonTokenStream, Token
 from antlr4.tree.Tree import ParseTree
 from antlr4.error.ErrorListener import ErrorListener
 
@@ -45,6 +45,9 @@ def parse(
     if not isinstance(entry_rule_func, types.MethodType):
         raise ValueError("Invalid entry_rule_name '%s'" % entry_rule_name)
     tree = entry_rule_func()
+    rest = token_stream.LT(1)
+    if rest.type != Token.EOF:
+        errors.messages.append(f'unexpected {rest.text!r} at {rest.line},{rest.column}')
     if errors.messages and not recover:
         raise RuntimeError(f'Syntax error: {"; ".join(errors.messages)}')
     return tree
-- 
2.43.0


From 2cfc1aa9f9565c7c0a9a2d3a54b238771de2a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 146/158] fix: A missing function argument is refused

---
 src/mccode_antlr/common/visitor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 386a26b..0a7ccb2 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -82,7 +82,10 @@ def visitExpressionFunctionCall(obj, ctx):
     function = Value(str(ctx.Identifier()), object_type=ObjectType.function)
     # `ctx.args` isn't exposed by speedy-antlr-tool, but the function call is
     # a call without arguments has one (string) expression made of no tokens
-    args = [obj.visit(arg).expr[0] for arg in ctx.expr() if arg.getText()]  # each is a Value, UnaryOp, or BinaryOp?
+    exprs = ctx.expr()
+    if len(exprs) == 1 and not exprs[0].getText():
+        exprs = []
+    args = [obj.visit(arg).expr[0] for arg in exprs]  # each is a Value, UnaryOp, or BinaryOp?
     return Expr(BinaryOp('__call__', function, args))
 
 def visitExpressionBinaryMD(obj, ctx):
@@ -167,9 +170,7 @@ def visitExpressionBinaryGreater(obj, ctx):
 def visitExpressionString(obj, ctx):
     if not ctx.StringLiteral():
         # the grammar allows for nothing, but only the arguments of a function call can be
-        call = ctx.parentCtx
-        if not isinstance(getattr(call, 'args', None), list) or len(call.args) != 1:
-            raise RuntimeError(f'An expression is missing at {ctx.start.line},{ctx.start.column}')
+        raise RuntimeError(f'An expression is missing at {ctx.start.line},{ctx.start.column}')
     # remove only the enclosing quotes -- the string itself could start or end in an (escaped) quote
     strings = ''.join(str(sl)[1:-1] for sl in ctx.StringLiteral())
     return Expr.str(f'"{strings}"')
-- 
2.43.0


From f8f2a2ab4a8459503d1e68c9e4c84a242ef6ff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 147/158] fix: The command line translators tell which of them
 to run with --source

---
 src/mccode_antlr/cli/commands.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/cli/commands.py b/src/mccode_antlr/cli/commands.py
index eb96623..15de6bc 100644
--- a/src/mccode_antlr/cli/commands.py
+++ b/src/mccode_antlr/cli/commands.py
@@ -49,7 +49,8 @@ def mccode(flavor: str, registry: Registry, generator: dict):
 
     args = mccode_script_parse(flavor)
 
-    config = dict(default_main=(not args.no_main) if args.no_main is not None else True,
+    config = dict(flavor=flavor,
+                  default_main=(not args.no_main) if args.no_main is not None else True,
                   enable_trace=args.trace if args.trace is not None else False,
                   portable=args.portable if args.portable is not None else False,
                   include_runtime=(not args.no_runtime) if args.no_runtime is not None else True,
-- 
2.43.0


From 0e4fcb2bb1981a4e8537d01d08d0b0553b37bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 148/158] fix: Integer division of a name by one fails, and of
 numbers by one is not rounded down

---
 src/mccode_antlr/common/expression.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index abb13f3..a7d44c2 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -1000,10 +1000,6 @@ class Value:
         pdt = self.data_type // other.data_type
         if self.is_zero:
             return Value(0, DataType.int)
-        if other.is_value(1):
-            return Value.int(round(self.value))
-        if other.is_value(-1):
-            return -Value.int(round(self.value))
         if other.is_zero:
             raise RuntimeError('Division by zero!')
         if other.is_op or self.is_id or other.is_id:
-- 
2.43.0


From 4d014d2e0d55dc59f32c6854c687f2d6ee728949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 149/158] fix: The factors of a product keep their integer
 divisions

---
 src/mccode_antlr/common/expression.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index a7d44c2..c9b2eb9 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -212,6 +212,13 @@ def _is_product(x, ops=('*', '/', '//')):
     return isinstance(x, BinaryOp) and x.op in ops
 
 
+def _starts_divided(x):
+    """A division, or a product with one before its last factor, which is not the same without its parentheses"""
+    if isinstance(x, UnaryOp) and x.op == '-' and len(x.value) == 1:
+        return _starts_divided(x.value[0])
+    return _is_product(x, ('/', '//')) or _is_product(x) and len(x.left) == 1 and _starts_divided(x.left[0])
+
+
 def _is_negative(x):
     if isinstance(x, Value):
         return isinstance(x.value, (int, float)) and str(x.value).startswith('-')  # -0.0 too
@@ -490,7 +497,7 @@ class BinaryOp(Op):
         if self.op in ('/', '//', '__pow__'):
             rstr = _wrap(rstr, self.right, _is_product)
         elif self.op == '*':
-            rstr = _wrap(rstr, self.right, lambda x: _is_product(x, ('/', '//')))
+            rstr = _wrap(rstr, self.right, _starts_divided)
         if self.op == '__pow__':
             lstr = _wrap(lstr, self.left, lambda x: _is_product(x, ('*', '/', '//', '__pow__')) or _is_negative(x))
         return lstr, rstr
-- 
2.43.0


From 67e555167bd3e20ccc807ae93e04326f183d80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 150/158] fix: A component with a name like NEXT_2 is not a
 relative target of a JUMP

---
 src/mccode_antlr/instr/jump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index e5b1d76..ea5f679 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -15,7 +15,7 @@ class Jump:
         # self.target is one of "PREVIOUS", "PREVIOUS_{i}, "MYSELF", "NEXT", "NEXT_{i}",
         # or "{component instance identifier}"
         jump_name = self.target
-        if fullmatch(r'(PREVIOUS|NEXT)(_\d+)?', jump_name):
+        if self.relative_target != 0 and fullmatch(r'(PREVIOUS|NEXT)(_\d+)?', jump_name):
             jump_name = jump_name.split('_')[0]
             if abs(self.relative_target) != 1:
                 jump_name += f' ({abs(self.relative_target)})'
-- 
2.43.0


From 96a4af5ec63d3c9f7cad45a8cf93583d340b4b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 151/158] fix: The initializer list which a text is sets an
 array parameter to its elements

---
 src/mccode_antlr/instr/instance.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 7f3a756..6363fb2 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -2,7 +2,7 @@ from loguru import logger
 from dataclasses import dataclass, field
 from typing import TypeVar, Union
 from ..comp import Comp
-from ..common import Expr, Value, Mode
+from ..common import Expr, Value, ObjectType, Mode
 from ..common import InstrumentParameter, ComponentParameter, MetaData, parameter_name_present, RawC, blocks_to_raw_c
 from .orientation import Orient, Vector, Angles
 from .jump import Jump
@@ -11,6 +11,20 @@ InstanceReference = TypeVar('InstanceReference', bound='Instance')
 VectorReference = tuple[Vector, InstanceReference]
 AnglesReference = tuple[Angles, InstanceReference]
 
+
+def _initializer_list_elements(text: str) -> list:
+    """The elements of the initializer list with the contents *text*: numbers, names, or the text of expressions"""
+    elements, depth = [''], 0
+    for c in text:
+        depth += (c in '([') - (c in ')]')
+        if c == ',' and depth == 0:
+            elements.append('')
+        else:
+            elements[-1] += c
+    elements = [Expr.parse(element).expr[0] for element in elements]
+    return [x.value if isinstance(x, Value) else str(x) for x in elements]
+
+
 @dataclass
 class Instance:
     """Intermediate representation of a McCode component instance
@@ -138,7 +152,10 @@ class Instance:
             logger.debug(f'{p=}, {name=}, {value=}')
             raise RuntimeError(f"Provided value for parameter {name} is not compatible with {self.type.name}")
 
-        if p.value.is_vector and isinstance(value, str):
+        if p.value.is_vector and isinstance(value, str) and value.strip().startswith('{') and value.strip().endswith('}'):
+            value = Expr(Value(_initializer_list_elements(value.strip()[1:-1]), data_type=p.value.data_type,
+                               object_type=ObjectType.initializer_list, shape_type=p.value.shape_type))
+        elif p.value.is_vector and isinstance(value, str):
             # FIXME can this be more general? Do we _need_ to treat vectors differently?
             value = Expr(Value(value, data_type=p.value.data_type, shape_type=p.value.shape_type))
         elif isinstance(value, str):
-- 
2.43.0


From f0c292d44fa70b09377e517c3daae5fce55516dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 152/158] fix: The number of computers which ran a simulation
 does not decide if it is a repeat

---
 src/mccode_antlr/loader/simfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 9f0fbaa..229738f 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -182,7 +182,8 @@ class SimFileSimulation:
 
     def is_repeat(self, other):
         # Every run has its own output directory, which is its name as well
-        skip = ['name', 'Directory', 'Ncount', 'Seed', 'Params']
+        # and can be distributed to any number of nodes
+        skip = ['name', 'Directory', 'Ncount', 'Seed', 'Params', 'Nodes']
         return all(getattr(self, f.name) == getattr(other, f.name) for f in fields(self) if f.name not in skip) and \
             sorted(self.Params) == sorted(other.Params)
 
@@ -192,6 +193,7 @@ class SimFileSimulation:
             # combining a repeat which was done to improve statistics
             out = deepcopy(self)
             out.Ncount += other.Ncount
+            out.Nodes = self.Nodes if self.Nodes == other.Nodes else None
             if other.name not in self.name:
                 out.name = f'{self.name} + {other.name}'
             if other.Directory not in self.Directory:
-- 
2.43.0


From 7036e2a40d76d9e8b981ff5bb16cfd7899c19342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:51 +0000
Subject: [PATCH 153/158] fix: updating a binary target keeps its NeXus output

---
 src/mccode_antlr/compiler/c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index 2cd24c2..211f7e4 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -33,6 +33,7 @@ class CBinaryTarget:
         self.count = d.get('count', self.count)
         d_mpi = d.get('mpi', self.type & CBinaryTarget.Type.mpi)
         d_acc = d.get('acc', self.type & CBinaryTarget.Type.acc)
+        d_nexus = d.get('nexus', self.type & CBinaryTarget.Type.nexus)
         if d_mpi and d_acc:
             self.type = CBinaryTarget.Type.acc | CBinaryTarget.Type.mpi
         elif d_mpi:
@@ -41,7 +42,7 @@ class CBinaryTarget:
             self.type = CBinaryTarget.Type.acc
         else:
             self.type = CBinaryTarget.Type.single
-        if d.get('nexus', self.type & CBinaryTarget.Type.nexus):
+        if d_nexus:
             self.type |= CBinaryTarget.Type.nexus
 
     @property
-- 
2.43.0


From 0a2861fe228a0462bb0e77da57cb513de81df8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 154/158] fix: the compiler which is looked for is the one
 which is run

---
 src/mccode_antlr/compiler/check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/compiler/check.py b/src/mccode_antlr/compiler/check.py
index cfed4b6..08c62c3 100644
--- a/src/mccode_antlr/compiler/check.py
+++ b/src/mccode_antlr/compiler/check.py
@@ -9,7 +9,7 @@ def check_for_mccode_antlr_compiler(path: str) -> bool:
     cc = config
     for key in path.split('/'):
         cc = cc[key]
-    cc = cc.get(str)
+    cc = cc.as_str_expanded()
 
     if not which(cc):
         logger.info(f"Compiler '{cc}' not found.")
-- 
2.43.0


From ab32cd97baf7a5ef153f522bde61aea9774b3378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 155/158] fix: the size of an array of a typedef name which may
 be a structure

---
 src/mccode_antlr/translators/c_listener.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 11b2108..3a5c671 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -194,7 +194,8 @@ class CDeclarator:
         elements = self.elements or ()
         sizes = (max_array_length,) * len(elements)
         if init and 0 in elements:
-            scalar = pointer or dtype is None or not any(x in dtype for x in ('struct', 'union'))
+            # any other type name could be that of a structure
+            scalar = pointer or dtype is None or set(dtype.split()) <= ARITHMETIC_WORDS
             sizes = initializer_dimensions(init, len(elements), scalar, pointer is not None)
             if sizes is None:
                 element = repeated_type(dtype) + f' {pointer or ""}'.rstrip() + ''.join(f'[{n}]' for n in elements[1:])
@@ -204,6 +205,9 @@ class CDeclarator:
         return ''.join(f'[{s if n == 0 else n}]' for n, s in zip(elements, sizes))
 
 
+ARITHMETIC_WORDS = {'char', 'short', 'int', 'long', 'float', 'double', 'signed', 'unsigned', 'const', 'volatile', 'size_t'}
+
+
 def split_type_body(dtype: str) -> tuple[str, str, str]:
     """Split a type at the definition of the members of a structure, union or enumeration, if it has one"""
     start, stop = dtype.find('{'), dtype.rfind('}') + 1
-- 
2.43.0


From 1484de9d16ae0156879485924f96dfed64076c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 156/158] fix: a local registry of a relative folder finds its
 files

---
 src/mccode_antlr/reader/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index e10f911..1d7714b 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -273,7 +273,8 @@ class GitHubRegistry(RemoteRegistry):
 class LocalRegistry(Registry):
     def __init__(self, name: str, root: str, priority: int = 10):
         self.name = name
-        self.root = Path(root)
+        # the paths of its files include this folder, and should not depend on the working directory
+        self.root = Path(root).resolve()
         self.version = mccode_antlr_version()
         self.priority = priority
 
-- 
2.43.0


From d094c314eb884a446bb1672f7aeea4195c1f5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 157/158] fix: refuse a scan of a parameter without values

---
 src/mccode_antlr/run/range.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index 90fe06e..2565f69 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -175,7 +175,10 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
     values = [values_of(x) for x in parameters.values()]
     if not len(values):
         return 0, names, []
-    elif grid:
+    for name, v in zip(names, values):
+        if len(v) == 0:
+            raise ValueError(f'Parameter {name} has no values')
+    if grid:
         from itertools import product
         from math import prod
         # singular MRange objects *should* stop the grid along their axis:
-- 
2.43.0


From 4b1f79c2732a355b5246942136b5ef00af446ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 158/158] fix: use the parameter of the instrument in vector
 elements which are expressions

---
 src/mccode_antlr/translators/c_initialise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index c2f4e30..0161960 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -104,10 +104,10 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
     from ..common.utilities import escape_str_for_c
 
     def element(v):
-        # the elements of a vector are numbers or the text of an expression
-        if not isinstance(v, str):
+        # the elements of a vector are numbers, expressions or the text of an expression
+        if not isinstance(v, (str, Expr)):
             return v
-        expr = Expr.parse(v)
+        expr = Expr.parse(v) if isinstance(v, str) else v.copy()
         expr.verify_parameters([x.name for x in instr.parameters])
         return f'{expr:p}'
 
-- 
2.43.0

