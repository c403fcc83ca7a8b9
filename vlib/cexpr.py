"""Expressions as the checks see them: abstract trees, C text, an independent parser and an evaluator.

Trees are JSON lists:
  ['num', text] ['str', [fragment, ...]] ['id', name]
  ['chain', [name, [kind, ...], ...]]      postfix chains: ['.', name] ['->', name] ['[', tree] ['(', tree...]
  ['un', op, tree] ['bin', op, l, r] ['tern', c, a, b] ['paren', tree]
"""
import hashlib
import math
import re

PREC = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 4, '>': 4, '<=': 4, '>=': 4, '<<': 5, '>>': 5,
        '+': 6, '-': 6, '*': 7, '/': 7, '%': 7, '^': 9}
UNARY = 8


class Undefined(Exception):
    """The value is not defined (division by zero, overflow, ...)"""


class BadSyntax(Exception):
    pass


# ---------------------------------------------------------------- rendering
def number(text):
    t = text.rstrip('uUlL') if not re.search(r'[.eE]', text) or text[:2] in ('0x', '0X') else text.rstrip('fFlL')
    if t[:2] in ('0x', '0X'):
        return int(t, 16)
    if re.fullmatch(r'0[0-7]+', t):
        return int(t, 8)
    if re.fullmatch(r'[0-9]+', t):
        return int(t)
    return float(t)


def render(t, sp=''):
    """C text with no more parentheses than C needs, except for ['paren'] nodes and the documented grammar quirks."""
    return _render(t, 0, sp)


def _prec(t):
    if t[0] == 'bin':
        return PREC[t[1]]
    if t[0] == 'un':
        return UNARY
    if t[0] == 'tern':
        return 0
    return 10


def _render(t, need, sp):
    k = t[0]
    if k == 'num' or k == 'id':
        return t[1]
    if k == 'str':
        return ' '.join('"' + f + '"' for f in t[1])
    if k == 'paren':
        return '(' + _render(t[1], 0, sp) + ')'
    if k == 'chain':
        out = t[1][0]
        for link in t[1][1:]:
            if link[0] in ('.', '->'):
                out += link[0] + link[1]
            elif link[0] == '[':
                out += '[' + _render(link[1], 0, sp) + ']'
            else:
                out += '(' + (',' + sp).join(_render(a, 0, sp) for a in link[1:]) + ')'
        return out
    if k == 'un':
        op = t[1]
        arg = _render(t[2], UNARY, sp)
        if t[2][0] == 'un' or arg[0] in '+-':
            arg = ' ' + arg
        out = op + arg
        return '(' + out + ')' if need > UNARY else out
    if k == 'tern':
        out = f'{_render(t[1], 1, sp)}{sp}?{sp}{_render(t[2], 0, sp)}{sp}:{sp}{_render(t[3], 0, sp)}'
        return '(' + out + ')' if need > 0 else out
    op, p = t[1], PREC[t[1]]
    if op == '^':     # right associative; the McCode convention is that -a^b is -(a^b)
        left, right = _render(t[2], p + 1, sp), _render(t[3], UNARY, sp)
    else:
        left, right = _render(t[2], p, sp), _render(t[3], p + 1, sp)
    if right[0] in '+-' and not sp:
        right = ' ' + right
    out = f'{left}{sp}{op}{sp}{right}'
    return '(' + out + ')' if need > p else out


def leading_zero(t):
    while t[0] == 'bin':
        t = t[2]
    return t[0] == 'num' and not number(t[1])


def avoid_quirks(t):
    """Add parentheses where the grammar of the project is known to differ from C (see DESIGN.md, known findings)."""
    k = t[0]
    par = lambda x: ['paren', x]
    if k == 'un':
        a = avoid_quirks(t[2])
        if t[1] in '+-' and (a[0] == 'un' and a[1] == '!'):
            a = par(a)
        if a[0] == 'bin' and a[1] in '^*/' and leading_zero(a):     # the sign of -0 is lost
            a = par(a)
        return [k, t[1], a]
    if k == 'paren':
        return [k, avoid_quirks(t[1])]
    if k == 'chain':
        return [k, [t[1][0]] + [l if l[0] in ('.', '->') else [l[0]] + [avoid_quirks(x) for x in l[1:]] for l in t[1][1:]]]
    if k == 'tern':
        return [k] + [avoid_quirks(x) for x in t[1:]]
    if k != 'bin':
        return t
    op = t[1]
    ops = []
    for side, a in enumerate(t[2:]):
        a = avoid_quirks(a)
        if op in ('+', '-', '*', '/', '%', '^', '<<', '>>'):
            if a[0] == 'un' and a[1] == '!':
                a = par(a)
            elif a[0] == 'bin' and a[1] == '%' and not (op == '%' and side == 0) and op not in ('<<', '>>'):
                a = par(a)
            elif a[0] == 'bin' and a[1] == '<<' and op == '>>':
                a = par(a)
        ops.append(a)
    return [k, op] + ops


LOOSE = {'<', '>', '<=', '>=', '==', '!=', '&&', '||'}


def strict(t):
    """Parenthesise every comparison, logical or ternary operand of such an operation (and of !)"""
    k = t[0]
    if k in ('num', 'id', 'str'):
        return t
    if k == 'chain':
        return [k, [t[1][0]] + [l if l[0] in ('.', '->') else [l[0]] + [strict(x) for x in l[1:]] for l in t[1][1:]]]
    head, args = (t[:1], t[1:]) if k in ('paren', 'tern') else (t[:2], t[2:])
    args = [strict(a) for a in args]
    if k == 'tern' or k == 'bin' and t[1] in LOOSE or k == 'un' and t[1] == '!':
        args = [['paren', a] if a[0] == 'tern' or a[0] == 'bin' and (k == 'un' or a[1] in LOOSE) or a[0] == 'un' and a[1] == '!'
                else a for a in args]
    return head + args


# ---------------------------------------------------------------- an independent parser of C expressions
TOKEN = re.compile(r'\s*(?:(?P<num>0[xX][0-9a-fA-F]+[uUlL]*|(?:[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)(?:[eE][+-]?[0-9]+)?[uUlLfF]*)'
                   r'|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<str>"(?:[^"\\]|\\.)*")'
                   r'|(?P<op>->|<<|>>|<=|>=|==|!=|&&|\|\||\*\*|[-+*/%^<>!?:()\[\],.]))')


def tokens(text):
    out, i = [], 0
    text = text.strip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m or m.end() == i:
            raise BadSyntax(f'no C token at {text[i:i + 20]!r} in {text!r}')
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class _Parser:
    def __init__(self, text):
        self.text, self.t, self.i = text, tokens(text), 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('end', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def expect(self, s):
        if self.next()[1] != s:
            raise BadSyntax(f'expected {s!r} in {self.text!r}')

    def ternary(self):
        c = self.binary(1)
        if self.peek() == ('op', '?'):
            self.next()
            a = self.ternary()
            self.expect(':')
            return ['tern', c, a, self.ternary()]
        return c

    def binary(self, p):
        if p == 8:
            return self.unary()
        left = self.binary(p + 1)
        while self.peek()[0] == 'op' and PREC.get(self.peek()[1]) == p:
            op = self.next()[1]
            left = ['bin', op, left, self.binary(p + 1)]
        return left

    def unary(self):
        k, s = self.peek()
        if k == 'op' and s in ('-', '+', '!'):
            self.next()
            return ['un', s, self.unary()]
        base = self.postfix()
        if self.peek() == ('op', '^'):
            self.next()
            return ['bin', '^', base, self.unary()]
        return base

    def postfix(self):
        k, s = self.next()
        if k == 'num':
            return ['num', s]
        if k == 'str':
            parts = [s[1:-1]]
            while self.peek()[0] == 'str':
                parts.append(self.next()[1][1:-1])
            return ['str', parts]
        if s == '(':
            e = self.ternary()
            self.expect(')')
            return ['paren', e]
        if k != 'id':
            raise BadSyntax(f'unexpected {s!r} in {self.text!r}')
        links = [s]
        while self.peek()[0] == 'op' and self.peek()[1] in ('.', '->', '[', '('):
            o = self.next()[1]
            if o in ('.', '->'):
                k, m = self.next()
                if k != 'id':
                    raise BadSyntax(f'member name expected, got {m!r} in {self.text!r}')
                links.append([o, m])
            elif o == '[':
                e = self.ternary()
                self.expect(']')
                links.append(['[', e])
            else:
                args = []
                if self.peek() != ('op', ')'):
                    args.append(self.ternary())
                    while self.peek() == ('op', ','):
                        self.next()
                        args.append(self.ternary())
                self.expect(')')
                links.append(['('] + args)
        return ['id', s] if len(links) == 1 else ['chain', links]


def parse(text):
    p = _Parser(text)
    e = p.ternary()
    if p.peek()[0] != 'end':
        raise BadSyntax(f'trailing {p.peek()[1]!r} in {text!r}')
    return e


def parse_list(text):
    """Comma separated expressions"""
    p = _Parser(text)
    out = [p.ternary()]
    while p.peek() == ('op', ','):
        p.next()
        out.append(p.ternary())
    if p.peek()[0] != 'end':
        raise BadSyntax(f'trailing {p.peek()[1]!r} in {text!r}')
    return out


# ---------------------------------------------------------------- evaluation
def coefficient(name, lo=-2.0, hi=2.0):
    h = int.from_bytes(hashlib.blake2b(name.encode(), digest_size=6).digest(), 'big') / 2 ** 48
    return lo + (hi - lo) * h


ESC = {'n': '\n', 't': '\t', 'r': '\r', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '0': '\0'}


def unescape(s):
    """The characters of one C string literal body"""
    def one(m):
        e = m.group(1)
        if e[0] == 'x':
            return chr(int(e[1:], 16) & 255)
        if e[0] in '01234567':
            return chr(int(e, 8) & 255)
        return ESC.get(e, e)
    return re.sub(r'\\(x[0-9a-fA-F]+|[0-7]{1,3}|.)', one, s, flags=re.S)


class Str(str):
    pass


def _num(x):
    if isinstance(x, Str):
        raise Undefined('arithmetic on a string')
    if isinstance(x, complex) or isinstance(x, float) and not math.isfinite(x) or isinstance(x, int) and abs(x) > 1 << 4000:
        raise Undefined('not finite')
    return x


FUNCS = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
         'sqrt': math.sqrt, 'exp': math.exp, 'abs': abs, 'fabs': abs, 'atan2': math.atan2}


def smooth(sig, args):
    """An arbitrary smooth function named by *sig*"""
    out = coefficient(sig)
    for i, a in enumerate(args):
        if isinstance(a, Str):
            out += coefficient(f'{sig}#{i}#{a}')
        else:
            out += coefficient(f'{sig}#{i}', 0.5, 1.5) * math.atan(_num(a)) + coefficient(f'{sig}#{i}!') * 1e-3 * a
    return out


def evaluate(t, env, funcs=None):
    """*env*: name -> number (names absent raise KeyError)"""
    k = t[0]
    ev = lambda x: evaluate(x, env, funcs)
    try:
        if k == 'num':
            return _num(number(t[1]))
        if k == 'id':
            return env[t[1]]
        if k == 'str':
            return Str(''.join(unescape(f) for f in t[1]))
        if k == 'paren':
            return ev(t[1])
        if k == 'tern':
            return ev(t[2]) if _num(ev(t[1])) else ev(t[3])
        if k == 'un':
            x = _num(ev(t[2]))
            return -x if t[1] == '-' else x if t[1] == '+' else int(not x)
        if k == 'chain':
            links = t[1]
            sig, args = links[0], []
            if len(links) == 2 and links[1][0] == '(' and funcs and sig in funcs:
                return _num(funcs[sig](*[_num(ev(a)) for a in links[1][1:]]))
            if links[1][0] != '(' and sig in env:
                args.append(env[sig])      # the variable itself matters: x[i], s.a, p->b
            for l in links[1:]:
                if l[0] in ('.', '->'):
                    sig += l[0] + l[1]
                else:
                    sig += l[0] + str(len(l) - 1)
                    args += [ev(a) for a in l[1:]]
            return smooth(sig, args)
        op = t[1]
        if op == '&&':
            return int(bool(_num(ev(t[2])) and _num(ev(t[3]))))
        if op == '||':
            return int(bool(_num(ev(t[2])) or _num(ev(t[3]))))
        l, r = ev(t[2]), ev(t[3])
        if op in ('==', '!=') and isinstance(l, Str) and isinstance(r, Str):
            return int((l == r) == (op == '=='))
        l, r = _num(l), _num(r)
        if op == '+':
            return _num(l + r)
        if op == '-':
            return _num(l - r)
        if op == '*':
            return _num(l * r)
        if op == '/':
            return _num(l / r)
        if op == '%':
            return _num(math.fmod(l, r))
        if op == '^':
            if abs(r) > 64:
                raise Undefined('large power')
            return _num(l ** r)
        if op in ('<<', '>>'):
            if abs(r) > 64:
                raise Undefined('large shift')
            y = l * 2.0 ** (r if op == '<<' else -r)
            return _num(y)
        return int({'<': l < r, '>': l > r, '<=': l <= r, '>=': l >= r, '==': l == r, '!=': l != r}[op])
    except (ZeroDivisionError, OverflowError, ValueError) as e:
        raise Undefined(str(e)) from None


def names(t):
    """The identifiers (variables) of the tree: not functions, not members"""
    k = t[0]
    if k == 'id':
        return {t[1]}
    if k in ('num', 'str'):
        return set()
    if k == 'chain':
        out = set() if t[1][1][0] == '(' else {t[1][0]}
        for l in t[1][1:]:
            if l[0] not in ('.', '->'):
                for a in l[1:]:
                    out |= names(a)
        return out
    out = set()
    for x in t[1:]:
        if isinstance(x, list):
            out |= names(x)
    return out


def size(t):
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, list) and x and isinstance(x[0], str) and t[0] not in ('chain', 'str')) \
        if t[0] not in ('chain',) else 1 + sum(size(a) for l in t[1][1:] if l[0] not in ('.', '->') for a in l[1:])


def same(a, b, rel=1e-9, abs_=1e-9):
    if isinstance(a, Str) or isinstance(b, Str):
        return isinstance(a, Str) and isinstance(b, Str) and a == b
    return a == b or math.isclose(a, b, rel_tol=rel, abs_tol=abs_)
