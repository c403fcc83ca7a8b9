"""Component libraries: a JSON description, its text, and what each definition means."""
from hypothesis import strategies as st

from vlib import cexpr, gen_expr

SECTIONS = ['share', 'uservars', 'declare', 'initialize', 'trace', 'save', 'finally', 'display']
KEYWORD = dict(share=['SHARE', 'Share', 'share'], uservars=['USERVARS', 'UserVars', 'uservars'],
               declare=['DECLARE', 'Declare', 'declare'],
               initialize=['INITIALIZE', 'INITIALISE', 'Initialize', 'initialise'], trace=['TRACE', 'Trace', 'trace'],
               save=['SAVE', 'Save', 'save'], display=['MCDISPLAY', 'DISPLAY', 'McDisplay', 'display'])
KEYWORD['finally'] = ['FINALLY', 'Finally', 'finally']
FIELD = dict(share='share', uservars='user', declare='declare', initialize='initialize', trace='trace', save='save',
             display='display')
FIELD['finally'] = 'final'

COMP_NAMES = ['Arm', 'Source_x', 'Mon1', 'C', 'Guide2', 'aa', 'Arm_2', 'l_monitor']
PNAMES = ['xwidth', 'p1', 'p12', 'n', 'E0', 'filename', 'v', 'vec', 've', 'focus_r', 'options', 'opt']
DNAMES = ['d1', 'd2', 'table', 'def_file']
ONAMES = ['out', 'o2', 'xwidth', 'tbl']
MIMES = ['text/plain', 'application/json', 'json', 'octet', 'a b']
MNAMES = ['m1', 'M1', 'info', 'my name', 'x-y.z', 'z']

BLOCK_PARTS = ['int i = 0;\n', 'double x;', '\n', ' ', '\t', '/* a comment */', '// line\n', '"a string %"', '#define X 1\n',
               'if (a && b) { x = y % 2; }', "char c='%';", '{', '}', '%', '% }', '\\', 'END', 'COMPONENT x = Arm()', '"%{"',
               '%{', 'é', 'x', 'SHARE', '\r', '"', "'"]


def block():
    text = st.lists(st.sampled_from(BLOCK_PARTS), max_size=6).map(''.join)
    # no %} inside; a % at the very end would make %%}, which ends the block one character later in no lexer
    return text.filter(lambda s: '%}' not in s and '%}' not in s + '}').map(lambda s: s)


def strings(empty=True):
    ch = list('abzAZ09 _-+./:;,(){}[]%@$#!?=&|<>*~^\'`') + ['\\"', '\\\\', '\\n', 'é', 'ü']
    return st.lists(st.sampled_from(ch), min_size=0 if empty else 1, max_size=8).map(''.join)


EXPRS = st.one_of(gen_expr.tree(2, ['a', 'b', 'c'], 'arith', False).map(lambda t: cexpr.render(cexpr.avoid_quirks(t))))


@st.composite
def param(draw, name):
    kind = draw(st.sampled_from(['bare', 'bare', 'double', 'int', 'string', 'charp', 'vector', 'doublep', 'intp']))
    if kind in ('bare', 'double', 'int'):
        default = draw(st.one_of(st.none(), st.just('0'), st.sampled_from(['1', '-1', '0.5', '-2.5e3', '1e-3', '0.0', '017', '0x1F', '10']),
                                 st.tuples(st.just('e'), gen_expr.tree(2, ['a', 'b', 'c'], 'arith', False)).map(list)))
    elif kind in ('string', 'charp'):
        default = draw(st.one_of(st.none(), st.just('NULL'), st.just('0'), strings().map(lambda s: '"' + s + '"')))
    else:
        default = draw(st.one_of(st.none(), st.just('NULL'), st.just('0'), st.sampled_from(['table', 'arr1']),
                                 st.lists(st.one_of(st.sampled_from(['1', '2', '-3', '0', 'a', '-a', 'a+b', '2*b'] if kind == 'intp' else
                                                    ['1', '2.5', '-3', '0', 'a', '1e3', '-0.25', '-a', 'a+b', '2*b'])),
                                          min_size=1, max_size=4)))
    return dict(name=name, kind=kind, default=default)


@st.composite
def comp(draw, name, earlier):
    c = dict(name=name, copy=draw(st.sampled_from(earlier)) if earlier and draw(st.integers(0, 1)) else None)
    names = list(PNAMES)
    own = draw(st.lists(st.sampled_from(names), unique=True, max_size=4))
    c['setting'] = [draw(param(n)) for n in own]
    c['define'] = [draw(param(n)) for n in draw(st.lists(st.sampled_from(DNAMES), unique=True, max_size=2))] if draw(st.integers(0, 3)) == 0 else []
    c['output'] = [draw(param(n)) for n in draw(st.lists(st.sampled_from(ONAMES), unique=True, max_size=2))] if draw(st.integers(0, 3)) == 0 else []
    c['empty_lists'] = draw(st.booleans())
    c['category'] = draw(st.one_of(st.none(), st.none(), st.sampled_from(['optics', 'misc_x', '"my category"', '"contrib"', '"a/b"'])))
    c['metadata'] = draw(st.lists(st.tuples(st.sampled_from(MIMES), st.sampled_from(MNAMES), block()).map(list), max_size=3)) if draw(st.integers(0, 2)) == 0 else []
    c['shell'] = draw(st.sampled_from([None, None, None, 'echo hi']))
    c['dependency'] = draw(st.one_of(st.none(), st.none(), strings()))
    c['noacc'] = draw(st.sampled_from([False, False, False, True]))
    secs = {}
    for s in SECTIONS:
        k = draw(st.sampled_from(['none', 'none', 'block', 'block', 'copy', 'extend']))
        if k in ('copy', 'extend') and (not earlier or s == 'uservars'):
            k = 'block'
        if k == 'none':
            continue
        frm = draw(st.sampled_from(earlier)) if k in ('copy', 'extend') else None
        secs[s] = dict(copy=frm, block=draw(block()) if k in ('block', 'extend') else None)
    c['sections'] = secs
    return c


@st.composite
def library(draw, lo=1, hi=4):
    names = draw(st.lists(st.sampled_from(COMP_NAMES), unique=True, min_size=lo, max_size=hi))
    comps = []
    for i, n in enumerate(names):
        comps.append(draw(comp(n, names[:i])))
    return comps


@st.composite
def chain(draw):
    """Four to six definitions with nothing but sections, most of which copy and extend those of earlier ones"""
    names = draw(st.lists(st.sampled_from(COMP_NAMES), unique=True, min_size=4, max_size=6))
    kinds = draw(st.lists(st.sampled_from(SECTIONS), unique=True, min_size=1, max_size=3))
    comps = []
    for i, n in enumerate(names):
        earlier = names[:i]
        recent = earlier[-2:] + earlier[-1:]
        c = dict(name=n, copy=draw(st.sampled_from(recent)) if earlier and draw(st.integers(0, 3)) == 0 else None, setting=[], define=[], output=[], empty_lists=False,
                 category=None, metadata=[], shell=None, dependency=None, noacc=draw(st.integers(0, 9)) == 0, sections={})
        for s in SECTIONS:
            if s not in kinds:
                continue
            k = draw(st.sampled_from(['extend', 'block', 'extend', 'extend', 'copy', 'none']))
            if k in ('copy', 'extend') and (not earlier or s == 'uservars'):
                k = 'block'
            if k != 'none':
                c['sections'][s] = dict(copy=draw(st.sampled_from(recent)) if k in ('copy', 'extend') else None,
                                        block=draw(st.sampled_from([f'/* {s} of {n} */', f'/* {s} of {n} */\n', 'x;', f'int {n};', ''])) if k in ('block', 'extend') else None)
        comps.append(c)
    return comps


GAPS = [' ', '\n', '  ', '\t', ' // a comment "%{ %}\n', ' /* a comment\n END */ ', '\r\n']


class Writer:
    """Joins tokens with varied white space and comments, and knows the line each block starts at"""

    def __init__(self, style):
        self.style, self.i, self.text, self.lines = style or [0], 0, '', []

    def gap(self, need=True):
        k = self.style[self.i % len(self.style)]
        self.i += 1
        if not need and k % 3 == 0:
            return
        self.text += GAPS[k % len(GAPS)]

    def tok(self, *ts):
        for t in ts:
            if self.text:
                self.gap(need=(self.text[-1].isalnum() or self.text[-1] in '_"') and (t[0].isalnum() or t[0] in '_"'))
            self.text += t

    def raw(self, t):
        self.gap()
        self.lines.append(self.text.count('\n') + 1)
        self.text += t


def default_text(p):
    d = p['default']
    if isinstance(d, list) and d and d[0] == 'e' and len(d) == 2:
        return cexpr.render(cexpr.avoid_quirks(d[1]))
    if isinstance(d, list):
        return '{' + ','.join(d) + '}'
    return d


def param_tokens(p):
    k = dict(bare=[], double=['double'], int=['int'], string=['string'], charp=['char', '*'], vector=['vector'],
             doublep=['double', '*'], intp=['int', '*'])[p['kind']]
    t = k + [p['name']]
    if p['default'] is not None:
        t += ['=', default_text(p)]
    return t


def text(c, style=None):
    """The .comp file; also the line numbers of the blocks in the order written"""
    w = Writer(style)
    kw = lambda s: KEYWORD[s][(w.style[w.i % len(w.style)]) % len(KEYWORD[s])]
    w.tok('DEFINE', 'COMPONENT', c['name'])
    if c['copy']:
        w.tok('COPY', c['copy'])
    for words, key in ((['DEFINITION', 'PARAMETERS'], 'define'), (['SETTING', 'PARAMETERS'], 'setting'), (['OUTPUT', 'PARAMETERS'], 'output')):
        if c[key] or (c['empty_lists'] and key != 'define'):
            w.tok(*words, '(')
            for i, p in enumerate(c[key]):
                if i:
                    w.tok(',')
                w.tok(*param_tokens(p))
            w.tok(')')
    if c['category']:
        w.tok('CATEGORY', c['category'])
    for mime, name, val in c['metadata']:
        w.tok('METADATA', mime if mime.isidentifier() else f'"{mime}"', name if name.isidentifier() else f'"{name}"')
        w.raw('%{' + val + '%}')
    if c['shell']:
        w.tok('SHELL', f'"{c["shell"]}"')
    if c['dependency'] is not None:
        w.tok('DEPENDENCY', f'"{c["dependency"]}"')
    if c['noacc']:
        w.tok('NOACC')
    lines = {}
    for s in SECTIONS:
        if s not in c['sections']:
            continue
        d = c['sections'][s]
        w.tok(kw(s))
        if d['copy']:
            w.tok('COPY', d['copy'])
            if d['block'] is not None:
                w.tok('EXTEND')
        if d['block'] is not None:
            w.raw('%{' + d['block'] + '%}')
            lines[s] = w.lines[-1]
    w.tok('END')
    w.gap(False)
    return w.text, lines


def blank(s):
    return not s.strip(' \t\n')


def resolve(lib, styles=None):
    """{name: {setting, define, output, metadata, acc, category, sections: {field: [(text, owner, line)]}}}"""
    out = {}
    for i, c in enumerate(lib):
        lines = text(c, styles[i % len(styles)] if styles else None)[1]
        base = out[c['copy']] if c['copy'] else None
        m = dict(setting=list(base['setting']) if base else [], define=list(base['define']) if base else [],
                 output=list(base['output']) if base else [], metadata=list(base['metadata']) if base else [],
                 acc=base['acc'] if base else True, category=base['category'] if base else None,
                 sections={s: list(v) for s, v in base['sections'].items()} if base else {s: [] for s in SECTIONS})
        for k in ('setting', 'define', 'output'):
            m[k] += c[k]
        if c['noacc']:
            m['acc'] = False
        if c['category']:
            m['category'] = c['category'].strip('"')
        for mime, name, val in c['metadata']:
            m['metadata'] = [x for x in m['metadata'] if x[1] != name] + [[mime, name, val]]
        for s, d in c['sections'].items():
            parts = list(out[d['copy']]['sections'][s]) if d['copy'] else []
            if d['block'] is not None and not blank(d['block']):
                parts.append((d['block'], c['name'], lines[s]))
            m['sections'][s] = parts
        out[c['name']] = m
    return out


def consistent(lib):
    """No definition or setting parameter is stated twice along a chain of copies, nor an output parameter"""
    res = {}
    for c in lib:
        base = res[c['copy']] if c['copy'] else (set(), set())
        ds = [p['name'] for p in c['define'] + c['setting']]
        o = [p['name'] for p in c['output']]
        res[c['name']] = (base[0] | set(ds), base[1] | set(o))
        c['setting'] = [p for p in c['setting'] if p['name'] not in base[0] | base[1]]
        c['define'] = [p for p in c['define'] if p['name'] not in base[0] | base[1] and p['name'] not in {q['name'] for q in c['setting']}]
        c['output'] = [p for p in c['output'] if p['name'] not in base[1]]
    return lib
