"""P01: what is not a valid file is refused, it is not misread."""
import copy
import json
import re
import tempfile
from pathlib import Path

from hypothesis import strategies as st

from vlib import cgen, engine, gen_comp, gen_expr, gen_instr, lib as L
from vlib.engine import check
from vlib.props import i01

SUBS, sub = engine.registry()
RULE = 'non-trivial: the text is valid, with two component instances or more (or an expression of two operators), before one thing in it is made wrong'
ASSUMPTIONS = ['PREVIOUS(n) with a too large n is ABSOLUTE, as the McStas manual says',
               'what the C compiler finds (a text for a number, an undeclared name) is left to it',
               'a required vector parameter can be left out']

TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|%\{.*?%\}|%include|"(?:\\.|[^"\\])*"|[A-Za-z_]\w*|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|->|<<|>>|<=|>=|==|!=|&&|\|\||\S', re.S)
WORDS = {w.lower() for w in '''DEFINE INSTRUMENT TRACE COMPONENT AT ABSOLUTE RELATIVE ROTATED END SPLIT GROUP EXTEND JUMP WHEN ITERATE REMOVABLE CPU
 METADATA DEPENDENCY DECLARE USERVARS INITIALIZE INITIALISE SAVE FINALLY'''.split()}
COMP_WORDS = {w.lower() for w in '''DEFINE COMPONENT DEFINITION SETTING OUTPUT PARAMETERS CATEGORY METADATA DEPENDENCY NOACC SHARE USERVARS DECLARE
 INITIALIZE INITIALISE TRACE SAVE FINALLY MCDISPLAY DISPLAY END EXTEND COPY'''.split()}


def tokens(text):
    """(start, end, kind) of all tokens; comments, blocks, and strings are one each"""
    out = []
    for m in TOKEN.finditer(text):
        t = m[0]
        kind = ('comment' if t[:2] in ('//', '/*') and len(t) > 1 else 'block' if t[:2] == '%{' else 'string' if t[0] == '"' and len(t) > 1 else
                'number' if re.match(r'\d|\.\d', t) else 'word' if re.match(r'\w', t) else 'bracket' if t in '()[]{}' else 'sign')
        out.append((m.start(), m.end(), kind))
    return out


def broken(text, edit, words):
    """The text after one change which always makes it invalid; None if there is no place for this change"""
    kind, where, what = edit
    toks = tokens(text)
    solid = [t for t in toks if t[2] != 'comment']
    last = [t for t in solid if t[2] == 'word'][-1]
    if text[last[0]:last[1]].lower() != 'end':
        raise engine.HarnessError(f'no END: {text}')

    def pick(items):
        return items[where % len(items)] if items else None

    def cut(a, b, new=''):
        return text[:a] + new + text[b:]
    # a boundary before the END at which something can be inserted
    at = pick([t[0] for t in solid if t[0] <= last[0]])
    if kind == 'drop-bracket':
        t = pick([t for t in solid if t[2] == 'bracket'])
        return t and cut(t[0], t[1], ' ')
    if kind == 'add-bracket':
        return cut(at, at, f' {"()[]{}"[what % 6]} ')
    if kind == 'bad-character':
        return cut(at, at, f' {"@$`"[what % 3]} ')
    if kind == 'keyword':
        word = lambda t: text[t[0]:t[1]].lower()
        # RELATIVE Xyzzy is wrong for another reason
        t = pick([t for n, t in enumerate(solid) if t[2] == 'word' and word(t) in words and word(t) != 'end' and (word(t) != 'absolute' or word(solid[n - 1]) != 'relative')])
        t = t if what % 4 else last
        return t and cut(t[0], t[1], 'Xyzzy')
    if kind == 'truncated':
        return text[:at]
    if kind == 'two-numbers':
        t = pick([t for t in solid if t[2] == 'number'])
        return t and cut(t[1], t[1], ' 5 ')
    if kind == 'open-comment':
        return None if '*/' in text[last[0]:] else cut(last[0], last[0], ' /* ')
    if kind == 'open-string':
        return None if '"' in text[last[0]:] else cut(last[0], last[0], ' " ')
    if kind == 'open-block':
        t = [t for t in solid if t[2] == 'block']
        # a later comment may end it
        return cut(t[-1][1] - 2, t[-1][1], ' ') if t and '%}' not in text[t[-1][1]:] else None
    if kind == 'no-block-start':
        t = pick([t for t in solid if t[2] == 'block' and '%{' not in text[t[0] + 2:t[1]]])
        return t and cut(t[0], t[0] + 2, ' ')
    if kind == 'after-end':
        return text + [' garbage', ' END', ' 1', ' ()', '\nTRACE'][what % 5]
    raise engine.HarnessError(kind)


KINDS = ['drop-bracket', 'add-bracket', 'bad-character', 'keyword', 'truncated', 'two-numbers', 'open-comment', 'open-string', 'open-block',
         'no-block-start', 'after-end']
EDIT = st.tuples(st.sampled_from(KINDS), st.integers(0, 400), st.integers(0, 11)).map(list)


class Accepted(engine.Violation):
    pass


def refused(fun, what):
    try:
        with cgen.quiet():
            got = fun()
    except Exception as e:
        return e
    raise Accepted(f'{what} is accepted, as {str(got)[-600:]}')


def reading(how, texts, comps, folder):
    """Functions which read main.instr in different ways"""
    from mccode_antlr.loader import loader
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import LocalRegistry
    if how in (0, 1):
        reg = L.memory(comps, instrs=texts)
        return (lambda: loader.parse_mccode_instr(texts['main'], [reg], 'main.instr')) if how == 0 else (lambda: Reader(registries=[reg]).get_instrument('main'))
    for n, t in comps.items():
        Path(folder, f'{n}.comp').write_bytes(t.encode())
    for n, t in texts.items():
        Path(folder, f'{n}.instr').write_bytes(t.encode())
    reg = LocalRegistry('here', str(folder))
    if how == 2:
        return lambda: Reader(registries=[reg]).get_instrument(Path(folder, 'main.instr'))
    return lambda: loader.load_mccode_instr(Path(folder, 'main.instr'), [reg])


def accepted(fun):
    with cgen.quiet():
        return fun()


@sub('instrument', st.tuples(gen_instr.program(3), i01.STYLES, EDIT, st.integers(0, 4), st.integers(0, 9)).map(list), quick=700, thorough=30000,
     rule='an instrument, or one it includes, with one syntax error, read in different ways')
def instrument(case, rec):
    prog, style, edit, how, which = case
    if i01.zero(prog):
        return
    comps, files, _ = i01.build(prog, style)
    names = sorted(files)
    name = names[which % len(names)]
    text = broken(files[name], edit, WORDS)
    if text is None:
        rec.label('no-place')
        return
    what = f'{json.dumps(text)} ({edit[0]}, {name} of {json.dumps(files)} with {json.dumps(comps)})'
    with tempfile.TemporaryDirectory() as a, tempfile.TemporaryDirectory() as b:
        if how == 4:
            from mccode_antlr.loader.loader import parse_mccode_instr_parameters
            if name != 'main':
                return
            accepted(lambda: parse_mccode_instr_parameters(files['main']))
            refused(lambda: parse_mccode_instr_parameters(text), what)
        else:
            accepted(reading(how, files, comps, a))
            refused(reading(how, dict(files, **{name: text}), comps, b), what)
    rec.label(edit[0], f'way-{how}', 'included' if name != 'main' else 'main')
    rec.nontrivial(len(prog['instr']['items']) >= 2, key=text)


@sub('component', st.tuples(gen_comp.library(1, 3), i01.STYLES, EDIT, st.integers(0, 9), st.integers(0, 2)).map(list), quick=500, thorough=20000,
     rule='a component definition with one syntax error, read directly, through a copy, or by an instrument')
def component(case, rec):
    from mccode_antlr.reader import Reader
    lib, style, edit, which, how = case
    lib = gen_comp.consistent(lib)
    from vlib.props.c01 import zero_divisor
    if zero_divisor(lib):
        return
    texts = {c['name']: gen_comp.text(c, style)[0] for c in lib}
    name = lib[which % len(lib)]['name']
    text = broken(texts[name], edit, COMP_WORDS)
    if text is None:
        rec.label('no-place')
        return
    user = name
    copies = [c['name'] for c in lib if c['copy'] == name or any(s['copy'] == name for s in c['sections'].values())]
    if copies and how == 1:
        user = copies[which % len(copies)]
    what = f'{json.dumps(text)} ({edit[0]}, {name} of {json.dumps(texts)}) read as {user}'

    def read(texts):
        if how < 2:
            return lambda: Reader(registries=[L.memory(texts)]).get_component(user)
        from mccode_antlr.loader.loader import parse_mccode_instr
        return lambda: parse_mccode_instr(f'DEFINE INSTRUMENT t() TRACE COMPONENT a = {user}() AT (0,0,0) ABSOLUTE END', [L.memory(texts)])
    accepted(read(texts))
    refused(read(dict(texts, **{name: text})), what)
    rec.label(edit[0], 'copied' if user != name else 'direct', f'way-{how}')
    rec.nontrivial(len(lib[which % len(lib)]['sections']) >= 1, key=text)


# ---------------------------------------------------------------- expressions
def wrong_expression(text, edit):
    kind, where, what = edit
    toks = [t for t in tokens(text)]
    at = [t[0] for t in toks] + [len(text)]
    p = at[where % len(at)]
    insert = lambda p, s: f'{text[:p]} {s} {text[p:]}'
    if kind == 'bracket':
        return insert(p, '()[]'[what % 4])
    if kind == 'drop-bracket':
        b = [t for t in toks if t[2] == 'bracket']
        if not b:
            return None
        t = b[where % len(b)]
        return text[:t[0]] + ' ' + text[t[1]:]
    if kind == 'character':
        return insert(p, '@$`'[what % 3])
    if kind == 'operator':   # a binary operator with nothing on one of its sides
        op = ['*', '/', '%', '==', '<', '>=', '&&', '||', '<<', '!=', '^', '?', ':'][what % 13]
        return f'{op} {text}' if where % 2 else f'{text} {op}'
    if kind == 'sign':
        return f'{text} ' + '+-!'[what % 3]
    if kind == 'operand':
        return f'{text} ' + ['zz', '5', '2.5', '"x" y', 'f(1)', ', 1', '= 3', ';', '.5.'][what % 9]
    if kind == 'empty':
        return ['', '  ', '()', '(())', 'f(a,)', 'f(,a)', 'f(,)', 'v[]', 'a ? : b', 'a ? b', 'a ? b :', 'p->', 's.'][what % 13]
    if kind == 'quote':
        return f'{text} "abc' if where % 2 else f'"{text.replace(chr(34), "")}'
    raise engine.HarnessError(kind)


EXPR_EDIT = st.tuples(st.sampled_from(['bracket', 'drop-bracket', 'character', 'operator', 'sign', 'operand', 'empty', 'quote']), st.integers(0, 60),
                      st.integers(0, 51)).map(list)
PAR_WRONG = ['{0}, b=2', 'int', '= {1}', 'double = {1}', '{0} 3', '{0} )', 'int {0} {0}', '2a = 1', '{0} = {1} {1}', 'a/unit = 1', 'a/"unit = 1', '{0} ;',
             'a = 1 = 2', 'string s = "a" "b', 'string s = zzz', 'float a = 1', 'long {0}', '', 'a b', '@a', 'a = {1} +', 'a == 1', 'double', 'double double a']


@sub('expression', st.tuples(gen_expr.tree(3), EXPR_EDIT).map(list), quick=1500, thorough=50000, rule='an expression text with one error')
def expression(case, rec):
    from mccode_antlr.common import Expr
    from vlib import cexpr
    from vlib.props.e01 import const_zero_divisor
    tree, edit = case
    tree = cexpr.avoid_quirks(tree)
    if const_zero_divisor(tree):
        return
    text = cexpr.render(tree, ' ')
    wrong = wrong_expression(text, edit)
    if wrong is None:
        rec.label('no-place')
        return
    accepted(lambda: Expr.parse(text))
    refused(lambda: Expr.parse(wrong), f'the expression {wrong!r}')
    rec.label(edit[0])
    rec.nontrivial(sum(1 for t in tokens(text) if t[2] == 'sign') >= 2, key=wrong)


@sub('parameter', st.tuples(gen_instr.parameter('a'), st.sampled_from(PAR_WRONG), st.sampled_from(['1', '2.5', 'x', '(1+2)'])).map(list), quick=100, thorough=2000,
     rule='the text of an instrument parameter with one error')
def parameter(case, rec):
    from mccode_antlr.common import InstrumentParameter
    p, form, value = case
    words = dict(bare=[], double=['double'], int=['int'], string=['string'], charp=['char', '*'])[p['kind']]
    text = ' '.join([*words, 'a'] + ([f'/ "{p["unit"]}"'] if p['unit'] is not None else []) + ([f'= {p["default"]}'] if p['default'] is not None else []))
    accepted(lambda: InstrumentParameter.parse(text))
    if form.startswith(('int {0}', 'long {0}')) and not words:
        return
    if form.startswith('{0} =') and (p['default'] is not None or p['kind'] in ('string', 'charp')):
        form = '{0} {1} {1}'
    wrong = form.format(text, value)
    refused(lambda: InstrumentParameter.parse(wrong), f'the parameter {wrong!r}')
    rec.label(form)
    rec.nontrivial(key=wrong)


# ---------------------------------------------------------------- meaning
def spots(spec, out=None):
    """(the instrument, its file, index of an item) for all component instances"""
    out = [] if out is None else out
    for k, item in enumerate(spec['items']):
        if 'include' in item:
            spots(item['instr'], out)
        else:
            out.append((spec, k))
    return out


MEANING = ['at-unknown', 'rot-unknown', 'at-later', 'at-self', 'copy-unknown', 'type-unknown', 'parameter-unknown', 'two-instances', 'two-parameters',
           'no-file', 'include-unknown', 'search-unknown', 'jump-unknown', 'jump-outside', 'required', 'comp-copy', 'comp-section', 'comp-parameters']
LATE = {'jump-unknown', 'jump-outside', 'required'}


def misstate(prog, kind, where):
    """A program with one thing which can not be; the texts are changed by what is returned with it"""
    prog = copy.deepcopy(prog)
    spec, fix = prog['instr'], None
    all_ = spots(spec)
    own = [(spec, k) for k, i in enumerate(spec['items']) if 'include' not in i]
    s, k = all_[where % len(all_)] if all_ else (None, None)
    c = s['items'][k] if all_ else None
    if kind in ('include-unknown', 'search-unknown'):
        t = {'include-unknown': '%include "nowhere.instr"', 'search-unknown': 'SEARCH "/nowhere/to/be/found"'}[kind]

        def fix(comps, files):
            text = files['main']
            trace = [t for t in tokens(text) if t[2] == 'word' and text[t[0]:t[1]].lower() == 'trace'][-1]
            files['main'] = f'{text[:trace[1]]}\n{t}\n{text[trace[1]:]}'
        return prog, fix
    if kind == 'no-file':
        def fix(comps, files):
            names = [n for n in sorted(files) if n != 'main']
            files.pop(names[where % len(names)])
        return (prog, fix) if any('include' in i for i in spec['items']) else None
    if kind == 'two-parameters':
        if not spec['params']:
            return None
        spec['params'].insert(where % (len(spec['params']) + 1), dict(spec['params'][where % len(spec['params'])]))
        return prog, fix
    if kind.startswith('comp-'):
        used = gen_instr.types_read(prog)
        lib = [x for x in prog['comps'] if x['name'] in used]
        if not lib:
            return None
        x = lib[where % len(lib)]
        if kind == 'comp-copy':
            x['copy'] = 'Nowhere'
        elif kind == 'comp-section':
            if not x['sections']:
                return None
            list(x['sections'].values())[where % len(x['sections'])]['copy'] = 'Nowhere'
        else:
            p = [sec for sec in ('setting', 'define') if x[sec]]
            if not p:
                return None
            p = x[p[where % len(p)]]
            again = dict(p[where % len(p)])
            (x['define'] if where % 3 == 0 else x['setting'] if where % 3 == 1 else p).append(again)      # also once in each
        return prog, fix
    if c is None:
        return None
    if kind == 'at-unknown':
        c['at'][1] = ['name', 'Nowhere']
    elif kind == 'rot-unknown':
        c['rot'] = [['0', '0', '10'], ['name', 'Nowhere']]
    elif kind in ('at-later', 'at-self'):
        if not own:
            return None
        s, k = own[where % len(own)]
        later = [j for _, j in own if j > k]
        j = later[where % len(later)] if later and kind == 'at-later' else k
        name = s['items'][j]['name']
        if name.startswith('Comp_') or any(name == i['name'] for q, n in all_ for i in (q['items'][n],) if i is not s['items'][j]):
            return None
        s['items'][k]['at'][1] = ['name', name]
    elif kind == 'copy-unknown':
        c['copy'], c['params'] = ['name', 'Nowhere'], []
    elif kind == 'type-unknown':
        c['copy'], c['type'], c['params'] = None, 'Nowhere', []
    elif kind == 'parameter-unknown':
        c['params'].insert(where % (len(c['params']) + 1), ['nowhere', '1'])
        c['parens'] = True
    elif kind == 'two-instances':
        if len(own) < 2:
            return None
        a = own[0][0]['items'][own[where % (len(own) - 1)][1]]
        b = own[0][0]['items'][own[where % (len(own) - 1) + 1][1]]
        if len(a['name_text']) > 1 or a['name_text'][0] in ('COPY', 'MYSELF'):
            return None
        b['name'], b['name_text'] = a['name'], [a['name']]
    elif kind == 'jump-unknown':
        c['jumps'] = [['Nowhere', None, 'WHEN', 'a>1']]
    elif kind == 'jump-outside':
        c['jumps'] = [[['PREVIOUS', 'NEXT'][where % 2], 50 + where, 'ITERATE', '3']]
    elif kind == 'required':
        c['copy'], c['type'], c['params'] = None, 'Needs', [] if where % 2 else [['other', '2']]
        c['parens'] = bool(c['params'])
        for s, k in spots(spec):
            s['items'][k]['copy'] = None        # it could be the one which is copied, and given other parameters
        extra = ['SETTING PARAMETERS (double needed, double other=1)', 'DEFINITION PARAMETERS (int needed) SETTING PARAMETERS (other=2)',
                 'SETTING PARAMETERS (string needed, other=1)', 'SETTING PARAMETERS (other=1, needed)'][where % 4]

        def fix(comps, files):
            comps['Needs'] = f'DEFINE COMPONENT Needs {extra} TRACE %{{ %}} END'
    return prog, fix


def removed(prog, where):
    """does the chosen place belong to a component which is left out, as a REMOVABLE one of an included instrument is?"""
    all_ = spots(prog['instr'])
    s, k = all_[where % len(all_)]
    return s is not prog['instr'] and s['items'][k]['removable']


@sub('meaning', st.tuples(gen_instr.program(4), i01.STYLES, st.sampled_from(MEANING), st.integers(0, 50), st.integers(0, 3)).map(list), quick=700, thorough=20000,
     rule='an instrument which states something impossible: refused when it is read or, for some, translated')
def meaning(case, rec):
    prog, style, kind, where, how = case
    if i01.zero(prog):
        return
    first = MEANING.index(kind)
    for k in range(3):          # three errors, each by itself
        one_error(prog, style, MEANING[(first + 6 * k) % len(MEANING)], where, how, rec)


def one_error(prog, style, kind, where, how, rec):
    changed = misstate(prog, kind, where)
    if changed is None or kind in LATE | {'rot-unknown'} and removed(prog, where):
        rec.label('no-place')
        return
    comps, files, _ = i01.build(prog, style)
    wrong, fix = changed
    wcomps, wfiles, _ = i01.build(wrong, style)
    if fix:
        fix(wcomps, wfiles)
    what = f'{kind}: {json.dumps(wfiles)} with {json.dumps(wcomps)}'
    with tempfile.TemporaryDirectory() as a, tempfile.TemporaryDirectory() as b:
        instr = accepted(reading(how, files, comps, a))
        if kind not in LATE:
            refused(reading(how, wfiles, wcomps, b), what)
        else:
            # each of the flavours refuses it
            bad = accepted(reading(how, wfiles, wcomps, b))
            refused(lambda: cgen.source(bad, where % 2 == 0), what)
            try:
                cgen.source(instr)
            except Exception:
                rec.label('untranslatable')
                return
    rec.label(kind, f'way-{how}')
    rec.nontrivial(len(spots(prog['instr'])) >= 2, key=[wfiles, wcomps])


# ---------------------------------------------------------------- assembler
def wrong_calls():
    return {
        'type': lambda a: a.component('x', 'Nowhere'),
        'relative': lambda a: a.component('x', 'Arm', at=((0, 0, 1), 'Nowhere')),
        'rotate': lambda a: a.component('x', 'Arm', at=((0, 0, 1), 'one'), rotate=((0, 0, 1), 'Nowhere')),
        'coordinate': lambda a: a.component('x', 'Arm', at=((0, 0, '1 +'), 'one')),
        'parameter': lambda a: a.component('x', 'Arm', parameters=dict(nowhere=1)),
        'set': lambda a: a.instrument.components[0].set_parameters(nowhere=1),
        'instance': lambda a: a.component('one', 'Arm'),
        'when': lambda a: a.component('x', 'Arm', when='p >'),
        'split': lambda a: a.component('x', 'Arm', split='3 3'),
        'when-later': lambda a: a.instrument.components[0].WHEN('(p > 1'),
        'split-later': lambda a: a.instrument.components[0].SPLIT('3 *'),
        'same parameter': lambda a: a.parameter('p=2'),
        'same parameters': lambda a: a.parameters(p=2),
        'parameter text': lambda a: a.parameter('double 2p'),
        'value': lambda a: a.component('x', 'Arm', parameters=dict(x='1 +')),
        'required': lambda a: a.component('x', 'Needs'),
    }


CALLS = sorted(wrong_calls())


@sub('assembled', st.tuples(st.sampled_from(CALLS), st.integers(0, 2), st.booleans()).map(list), quick=128, thorough=400, rule='wrong calls of the Assembler')
def assembled(case, rec):
    call, more, mcstas = case
    comps = dict(Arm='DEFINE COMPONENT Arm SETTING PARAMETERS (double x=1) TRACE %{ %} END',
                 Needs='DEFINE COMPONENT Needs SETTING PARAMETERS (double needed) TRACE %{ %} END')
    a = L.assembler(comps)
    a.parameter('p=1')
    a.component('one', 'Arm', at=(0, 0, 0))
    for k in range(more):
        a.component(f'more{k}', 'Arm', at=((0, 0, 1), 'one'))
    cgen.source(a.instrument, mcstas)

    def do():
        wrong_calls()[call](a)
        return cgen.source(a.instrument, mcstas)
    refused(do, f'the Assembler call {call}')
    rec.label(call)
    rec.nontrivial(key=case)
