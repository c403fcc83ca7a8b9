"""Ways into the library which several checks share."""


def memory(comps, name='verif', instrs=None):
    from mccode_antlr.reader.registry import InMemoryRegistry
    reg = InMemoryRegistry(name)
    for n, t in comps.items():
        reg.add_comp(n, t)
    for n, t in (instrs or {}).items():
        reg.add_instr(n, t)
    return reg


class SyntaxErrors(Exception):
    pass


def parse_tree(text):
    """The instrument parse tree; raises if the grammar rejects the text (ANTLR itself only reports and recovers)"""
    from antlr4 import InputStream
    from mccode_antlr.grammar import McInstr_parse, McInstr_ErrorListener

    errors = []

    class Listener(McInstr_ErrorListener):
        def syntaxError(self, *a, **k):
            errors.append(str(a[2:]))
    tree = McInstr_parse(InputStream(text), 'prog', Listener())
    if errors:
        raise SyntaxErrors(f'{errors[0]} in {text}')
    return tree


def parse_instr(text, comps=None, registries=None, source='verif.instr', strict=True):
    """As loader.parse_mccode_instr, but a syntax error is an exception"""
    from mccode_antlr.instr import InstrVisitor
    from mccode_antlr.reader import Reader
    registries = registries or [memory(comps or {})]
    if not strict:
        from mccode_antlr.loader.loader import parse_mccode_instr
        return parse_mccode_instr(text, registries, source)
    reader = Reader(registries=list(registries))
    instr = InstrVisitor(reader, source).visitProg(parse_tree(text))
    instr.flags += tuple(reader.c_flags)
    instr.registries += tuple(registries)
    return instr


def assembler(comps, name='verif', registries=None):
    from mccode_antlr.assembler import Assembler
    return Assembler(name, registries=registries or [memory(comps)])
