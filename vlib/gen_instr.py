"""Instrument files: a JSON description, its text, and the instrument it means."""
from hypothesis import strategies as st

from vlib import cexpr, gen_comp, gen_expr
from vlib.gen_comp import Writer, blank, block, strings

NUMS = ['E', 'a', 'b', 'nn', 'E_i', 'ab', 'mode', 'xwidth']
PARS = NUMS + ['fname', 'f_2']
FREE = ['dd', 'flag', 'a2', 'arr']              # names which only DECLARE blocks could define
INAMES = ['src', 'mon', 'g1', 'g10', 'a1', 'sample', 'arm_2', 'Arm', 'x', 'det', 'E2', 'last', 'NEXT_2', 'PREVIOUS_1']
GROUPS = ['G', 'g1', 'grp_2']
UNITS = ['meV', '1/AA', '', 'deg', 'm s', 'a"b'.replace('"', "'"), 'µm']


def const_zero_divisor(t):
    from vlib.props.e01 import const_zero_divisor as f
    return f(t)


@st.composite
def expr(draw, ids, ops='arith', depth=2, when=False):
    t = draw(gen_expr.tree(depth, ids, ops, False))
    if when:
        t = ['bin', draw(st.sampled_from(['<', '>', '==', '!=', '>=', '<='])), ['id', draw(st.sampled_from(ids))], ['paren', t]]
        if draw(st.integers(0, 3)) == 0:
            t = ['bin', draw(st.sampled_from(['&&', '||'])), ['paren', t], ['paren', ['bin', '>', ['id', draw(st.sampled_from(ids))], ['num', '1']]]]
    t = cexpr.avoid_quirks(t)
    if const_zero_divisor(t):
        return draw(st.sampled_from(ids))
    return cexpr.render(t)


@st.composite
def parameter(draw, name):
    # (a division of text is an error)
    kind = draw(st.sampled_from(['bare', 'double', 'int', 'bare'] if name in NUMS else ['string', 'charp']))
    unit = draw(st.one_of(st.none(), st.sampled_from(UNITS)))
    if kind in ('string', 'charp'):
        default = draw(st.one_of(st.none(), st.just('NULL'), strings().map(lambda s: '"' + s + '"')))
    elif kind == 'int':
        default = draw(st.one_of(st.none(), st.sampled_from(['0', '1', '-3', '017', '0x10', '2*3', '-(4-1)', '7'])))
    else:
        default = draw(st.one_of(st.none(), st.sampled_from(['0', '1', '-2.5', '1e-3', '.5', '2*3.5', '1e10', '-(1+2)', '3/4.0', '0.1'])))
    return dict(name=name, kind=kind, unit=unit, default=default)


@st.composite
def metadata(draw, names=gen_comp.MNAMES, hi=2):
    return draw(st.lists(st.tuples(st.sampled_from(gen_comp.MIMES), st.sampled_from(names), block()).map(list), max_size=hi, unique_by=lambda m: m[1]))


@st.composite
def value(draw, p, ids):
    """The text given for a component parameter"""
    k = p['kind']
    if k in ('bare', 'double', 'int'):
        return draw(st.one_of(st.sampled_from(['0', '1', '2', '-1', '3']), expr(ids, draw(st.sampled_from(['arith', 'full'])), 2),
                              st.sampled_from(ids)))
    if k in ('string', 'charp'):
        return draw(st.one_of(strings().map(lambda s: '"' + s + '"'), st.sampled_from(['NULL', 'fname', 'f_2', 'PREVIOUS', 'MYSELF'])))
    els = st.sampled_from(['1', '2', '-3', '0', 'a', '-E', 'a+b'] + (['2.5', '1e3'] if k != 'intp' else []))
    return draw(st.one_of(st.just('NULL'), st.sampled_from(['arr', 'dd']), st.lists(els, min_size=1, max_size=4).map(lambda l: '{' + ', '.join(l) + '}')))


@st.composite
def reference(draw, visible):
    if visible and draw(st.integers(0, 2)):
        if draw(st.integers(0, 2)) == 0:
            n = draw(st.integers(1, len(visible)))
            return ['prev', None if n == 1 and draw(st.booleans()) else n]
        return ['name', draw(st.sampled_from(visible))['name']]
    return None


@st.composite
def coords(draw, ids, angles=False):
    simple = ['0', '0', '1', '-2', '0.5'] + (['90', '-90', '180', '30', '270', '12.5'] if angles else ['1e-3', '10'])
    return [draw(st.one_of(st.sampled_from(simple), st.sampled_from(simple), expr(ids, 'lin', 1))) for _ in range(3)]


@st.composite
def component(draw, model, visible, used, ids, f):
    """One instance; *visible*: those it can refer to; *used*: the names which are taken"""
    own_count = f['count']
    c = dict(removable=draw(st.integers(0, 4)) == 0, cpu=draw(st.integers(0, 4)) == 0, split=None, when=None, group=None,
             extend=None, jumps=[], metadata=[], params=[], rot=None)
    form = draw(st.integers(0, 7)) if f['copynames'] else 7
    if form == 0 and visible:
        base = draw(st.sampled_from(visible))['name'] if draw(st.booleans()) else draw(st.sampled_from(INAMES))
        name, c['name_text'] = f'{base}_{own_count + 1}', ['COPY', '(', base, ')']
    elif form == 1:
        name, c['name_text'] = f'Comp_{own_count + 1}', [draw(st.sampled_from(['COPY', 'MYSELF']))]
    else:
        name, c['name_text'] = None, None
    if name is None or name in used:
        name = draw(st.sampled_from([n for n in INAMES if n not in used] or [f'extra{len(used)}']))
        c['name_text'] = [name]
    c['name'] = name
    if visible and draw(st.integers(0, 3)) == 0:
        c['copy'] = ['prev', None] if draw(st.integers(0, 2)) == 0 else ['name', draw(st.sampled_from(visible))['name']]
        if c['copy'][0] == 'prev':
            src = visible[-1]
            if draw(st.booleans()):
                n = draw(st.integers(1, len(visible)))
                c['copy'], src = ['prev', n], visible[-n]
        else:
            src = [v for v in visible if v['name'] == c['copy'][1]][0]
        ctype = src['type']
    else:
        c['copy'] = None
        ctype = draw(st.sampled_from(sorted(model)))
    c['type'] = ctype
    avail = model[ctype]['define'] + model[ctype]['setting']
    if avail:
        for p in draw(st.lists(st.sampled_from(avail), unique_by=lambda p: p['name'], max_size=4)):
            v = draw(value(p, ids))
            if v == 'PREVIOUS' and not visible:
                v = 'NULL'
            c['params'].append([p['name'], v])
        if c['params'] and draw(st.integers(0, 9)) == 0:     # stated twice
            n = c['params'][0][0]
            c['params'].append([n, draw(value([p for p in avail if p['name'] == n][0], ids).filter(lambda v: v != 'PREVIOUS'))])
    c['parens'] = bool(c['params']) or draw(st.booleans())
    if draw(st.integers(0, 4)) == 0:
        c['split'] = draw(st.one_of(st.just(''), st.sampled_from(['3', '10', 'nn', '2*nn', '100'])))
    if draw(st.integers(0, 2)) == 0:
        c['when'] = draw(expr(ids, 'full', 2, when=True))
    if draw(st.integers(0, 2)) == 0:
        c['group'] = draw(st.sampled_from(GROUPS))
    if draw(st.integers(0, 2)) == 0:
        c['extend'] = draw(block())
    for _ in range(draw(st.sampled_from([0, 0, 0, 0, 1, 2]))):
        t = draw(st.sampled_from(['PREVIOUS', 'NEXT', 'MYSELF', 'name']))
        n = draw(st.sampled_from([None, 1, 2, 3, 12])) if t in ('PREVIOUS', 'NEXT') else None
        t = draw(st.sampled_from(INAMES)) if t == 'name' else t
        it = draw(st.sampled_from(['WHEN', 'ITERATE']))
        c['jumps'].append([t, n, it, draw(expr(ids, 'full', 1, when=True)) if it == 'WHEN' else draw(st.sampled_from(['3', 'nn', '2*nn+1', '10']))])
    if draw(st.integers(0, 3)) == 0:
        c['metadata'] = draw(metadata())
    c['at'] = [draw(coords(ids)), draw(reference(visible))]
    if draw(st.booleans()):
        c['rot'] = [['0', '0', '0'] if draw(st.integers(0, 4)) == 0 else draw(coords(ids, True)), draw(reference(visible))]
    c['abs_words'] = draw(st.sampled_from(['ABSOLUTE', 'RELATIVE ABSOLUTE']))
    return c


@st.composite
def instrument(draw, model, name, dest, used, f, includes=()):
    """*includes*: [(file name, instrument drawn with this one as destination), ...] are drawn as they are met"""
    spec = dict(name=name)
    spec['params'] = [draw(parameter(n)) for n in draw(st.lists(st.sampled_from(PARS), unique=True, max_size=5))]
    spec['metadata'] = draw(metadata(f['mnames'])) if draw(st.integers(0, 2)) == 0 else []
    spec['dependency'] = draw(st.one_of(st.none(), strings()))
    for s in ('declare', 'uservars', 'initialize', 'save', 'finally'):
        spec[s] = draw(st.one_of(st.none(), block()))
    spec['items'] = []
    own = []
    ids = NUMS + FREE
    todo = list(includes)
    for _ in range(draw(st.integers(0 if not todo else 1, f['ncomp']))):
        visible = dest + own
        if todo and draw(st.booleans()):
            fname, depth = todo.pop(0)
            sub = draw(instrument(model, f'{name}_{fname}', visible if f['nested_refs'] else own,
                                  used, dict(f, copynames=False, ncomp=3, count=0, removable_dropped=True,
                                             mnames=[fname + m for m in ('a', 'b c')], nested_refs=False),
                                  [(fname + 'n', 0)] if depth else []))
            spec['items'].append(dict(include=fname, instr=sub))
            own += sub.pop('_kept')
            f['count'] = len(own)
            continue
        c = draw(component(model, visible, used, ids, f))
        used.add(c['name'])
        spec['items'].append(c)
        if not (f.get('removable_dropped') and c['removable']):
            own.append(dict(name=c['name'], type=c['type']))
        f['count'] = len(own)
    spec['_kept'] = own
    return spec


@st.composite
def program(draw, ncomp=6, includes=True, copynames=True, complib=None):
    lib = gen_comp.consistent(draw(complib if complib is not None else gen_comp.library(1, 3)))
    model = gen_comp.resolve(lib)
    inc = []
    if includes and draw(st.integers(0, 1)):
        inc = [('inc', draw(st.integers(0, 1)))] + ([('other', 0)] if draw(st.integers(0, 2)) == 0 else [])
    f = dict(copynames=copynames, ncomp=ncomp, count=0, mnames=gen_comp.MNAMES, nested_refs=True)
    spec = draw(instrument(model, 'main_instr', [], set(), f, inc))
    spec.pop('_kept')
    return dict(comps=lib, instr=spec)


# ---------------------------------------------------------------- text
def _coords(w, v):
    w.tok('(', v[0], ',', v[1], ',', v[2], ')')


def _ref(w, r, words):
    if r is None:
        w.tok(*words.split())
    else:
        w.tok('RELATIVE')
        ref(w, r)


def ref(w, r):
    if r[0] == 'name':
        w.tok(r[1])
    else:
        w.tok('PREVIOUS')
        if r[1] is not None:
            w.tok('(', str(r[1]), ')')


def quoted(s):
    return s if s.isidentifier() and s.isascii() else f'"{s}"'


def _metadata(w, items):
    for mime, name, val in items:
        w.tok('METADATA', quoted(mime), quoted(name))
        w.raw('%{' + val + '%}')


def component_text(w, c):
    """Returns the line of the EXTEND block"""
    if c['removable']:
        w.tok('REMOVABLE')
    if c['cpu']:
        w.tok('CPU')
    if c['split'] is not None:
        w.tok('SPLIT', *([c['split']] if c['split'] else []))
    w.tok('COMPONENT', *c['name_text'])
    w.tok('=')
    if c['copy']:
        w.tok('COPY', '(')
        ref(w, c['copy'])
        w.tok(')')
    else:
        w.tok(c['type'])
    if c['parens']:
        w.tok('(')
        for i, (n, v) in enumerate(c['params']):
            if i:
                w.tok(',')
            w.tok(n, '=', v)
        w.tok(')')
    if c['when'] is not None:
        w.tok('WHEN', c['when'])
    w.tok('AT')
    _coords(w, c['at'][0])
    _ref(w, c['at'][1], c['abs_words'])
    if c['rot']:
        w.tok('ROTATED')
        _coords(w, c['rot'][0])
        _ref(w, c['rot'][1], 'ABSOLUTE')
    if c['group']:
        w.tok('GROUP', c['group'])
    line = None
    if c['extend'] is not None:
        w.tok('EXTEND')
        w.raw('%{' + c['extend'] + '%}')
        line = w.lines[-1]
    for t, n, it, e in c['jumps']:
        w.tok('JUMP', t, *(['(', str(n), ')'] if n is not None else []), it, e)
    _metadata(w, c['metadata'])
    return line


SECT = [('declare', ['DECLARE']), ('uservars', ['USERVARS']), ('initialize', ['INITIALIZE', 'INITIALISE'])]
TAIL = [('save', ['SAVE']), ('finally', ['FINALLY'])]


def text(spec, style=None, out=None, name='main'):
    """{file name: text} and {(file name, section or component): line}"""
    files, lines = out if out is not None else ({}, {})
    w = Writer(style)
    w.tok('DEFINE', 'INSTRUMENT', spec['name'], '(')
    for i, p in enumerate(spec['params']):
        if i:
            w.tok(',')
        w.tok(*dict(bare=[], double=['double'], int=['int'], string=['string'], charp=['char', '*'])[p['kind']], p['name'])
        if p['unit'] is not None:
            w.tok('/', f'"{p["unit"]}"')
        if p['default'] is not None:
            w.tok('=', p['default'])
    w.tok(')')
    _metadata(w, spec['metadata'])
    if spec['dependency'] is not None:
        w.tok('DEPENDENCY', f'"{spec["dependency"]}"')
    for s, words in SECT:
        if spec[s] is not None:
            w.tok(words[len(w.text) % len(words)])
            w.raw('%{' + spec[s] + '%}')
            lines[name, s] = w.lines[-1]
    w.tok('TRACE')
    for item in spec['items']:
        if 'include' in item:
            w.tok('%include', f'"{item["include"]}.instr"')
            text(item['instr'], style[1:] + style[:1] if style else None, (files, lines), item['include'])
        else:
            lines[name, ':' + item['name']] = component_text(w, item)
    for s, words in TAIL:
        if spec[s] is not None:
            w.tok(words[0])
            w.raw('%{' + spec[s] + '%}')
            lines[name, s] = w.lines[-1]
    w.tok('END')
    w.gap(False)
    files[name] = w.text
    return files, lines


# ---------------------------------------------------------------- meaning
def resolve(prog, lines=None):
    model = gen_comp.resolve(prog['comps'])
    lines = lines or {}
    return _resolve(prog['instr'], model, [], lines, 'main', True)


def find(r, visible):
    if r[0] == 'prev':
        return visible[-(r[1] or 1)]
    return [v for v in visible if v['name'] == r[1]][0]


def _merge_meta(items, extra):
    for m in extra:
        items = [x for x in items if x[1] != m[1]] + [m]
    return items


def _resolve(spec, model, dest, lines, fname, top):
    v = dict(name=spec['name'], params=list(spec['params']), metadata=_merge_meta([], spec['metadata']),
             flags=[spec['dependency']] if spec['dependency'] is not None else [], included=[])
    blk = lambda s: [[spec[s], fname, lines.get((fname, s))]] if spec[s] is not None and not blank(spec[s]) else []
    for s in ('declare', 'uservars', 'initialize'):
        v[s] = blk(s)
    v['save'], v['finally'] = [], []
    comps = []
    for item in spec['items']:
        if 'include' in item:
            o = _resolve(item['instr'], model, comps if True else [], lines, item['include'], False)
            v['included'].append(o['name'])
            names = [p['name'] for p in v['params']]
            v['params'] += [p for p in o['params'] if p['name'] not in names]
            v['metadata'] = _merge_meta(v['metadata'], o['metadata'])
            for s in ('declare', 'uservars', 'initialize', 'save', 'finally'):
                v[s] = v[s] + o[s]
            comps += o['comps']
            v['flags'] += o['flags']
            continue
        visible = dest + comps
        src = find(item['copy'], visible) if item['copy'] else None
        ctype = src['type'] if src else item['type']
        previous, myself = (visible[-1]['name'] if visible else None), item['name']
        c = dict(name=item['name'], type=ctype, removable=item['removable'], cpu=item['cpu'] or not model[ctype]['acc'],
                 split=item['split'] if item['split'] != '' else '10')
        params = dict(src['params']) if src else {}
        for n, t in item['params']:
            if n in params and not src:
                continue                     # of values stated twice the first is kept; a copied one is replaced
            params[n] = f'"{previous}"' if t == 'PREVIOUS' else f'"{myself}"' if t == 'MYSELF' else t
        c['params'] = params
        c['when'] = item['when'] if item['when'] is not None else src['when'] if src else None
        c['group'] = item['group'] if item['group'] is not None else src['group'] if src else None
        c['extend'] = src['extend'] if src else None
        if item['extend'] is not None and (not blank(item['extend']) or True):
            c['extend'] = [item['extend'], fname, lines.get((fname, ':' + item['name']))] if not blank(item['extend']) else None
        c['jumps'] = item['jumps'] or (src['jumps'] if src else [])
        c['metadata'] = _merge_meta(list(src['metadata']) if src else [], item['metadata'])
        at_ref = find(item['at'][1], visible)['name'] if item['at'][1] else None
        c['at'] = [item['at'][0], at_ref]
        if item['rot']:
            c['rot'] = [item['rot'][0], find(item['rot'][1], visible)['name'] if item['rot'][1] else None]
        else:
            c['rot'] = [['0', '0', '0'], at_ref]
        if not (not top and c['removable']):
            comps.append(c)
    v['save'] += blk('save')
    v['finally'] += blk('finally')
    v['comps'] = comps
    return v


def types_read(prog):
    """The component definitions which reading the instrument reads"""
    by = {c['name']: c for c in prog['comps']}
    seen = set()

    def need(n):
        if n in seen:
            return
        seen.add(n)
        if by[n]['copy']:
            need(by[n]['copy'])
        for s in by[n]['sections'].values():
            if s['copy']:
                need(s['copy'])

    def walk(spec):
        for i in spec['items']:
            if 'include' in i:
                walk(i['instr'])
            elif not i['copy']:
                need(i['type'])
    walk(prog['instr'])
    return seen


def groups(comps):
    out = {}
    for i, c in enumerate(comps):
        if c['group']:
            out.setdefault(c['group'], []).append(i)
    return out


def features(prog):
    """Labels"""
    out = set()

    def walk(spec, depth):
        for i in spec['items']:
            if 'include' in i:
                out.add('include' if not depth else 'nested-include')
                walk(i['instr'], depth + 1)
                continue
            for k in ('removable', 'cpu', 'when', 'group', 'extend', 'jumps', 'metadata', 'copy', 'rot'):
                if i[k]:
                    out.add(k)
            if i['split'] is not None:
                out.add('split')
            if any(r and r[0] == 'prev' for r in (i['at'][1], i['rot'] and i['rot'][1])):
                out.add('previous')
            if len(i['name_text']) > 1 or i['name_text'] in (['COPY'], ['MYSELF']):
                out.add('copied-name')
    walk(prog['instr'], 0)
    for k in ('declare', 'uservars', 'initialize', 'save', 'finally'):
        if prog['instr'][k] is not None:
            out.add(k)
    if any(not m['acc'] for m in gen_comp.resolve(prog['comps']).values()):
        out.add('noacc')
    return out
