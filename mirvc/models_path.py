"""Paths: an abstract sort with parent / last component; joining one plain component is injective and undone by pop.
File system queries are functions of the path (the file system does not change during one call)."""
import z3
from vc import VAdt, VRef, Outcome, ToolLimit, is_term, zstr

def register(E):
    from models import deref, mk
    M = E.models

    def model(*names):
        def deco(f):
            for n in names:
                M[n] = f
            return f
        return deco
    PS = lambda: E.sort(E.nty('std::path::PathBuf'))

    def pterm(st, v):
        v = deref(E, st, v)
        t = E.term(st, v)
        if t.sort() == z3.StringSort():
            return E.uf('path_of_str', [t], PS())
        return t
    def is_join(p):
        return z3.is_app(p) and p.decl().name() == 'path_join'
    def join(st, p, s):
        return E.uf('path_join', [p, s], PS())
    def has_parent(st, p):
        return z3.BoolVal(True) if is_join(p) else E.uf('path_has_parent', [p], z3.BoolSort())
    def parent(st, p):
        return p.arg(0) if is_join(p) else E.uf('path_parent', [p], PS())
    def has_name(st, p):
        return z3.BoolVal(True) if is_join(p) else E.uf('path_has_name', [p], z3.BoolSort())
    def plain(s):
        """a literal single component"""
        return z3.is_string_value(s) and s.as_string() not in ('', '.', '..') and '/' not in s.as_string() and '\\' not in s.as_string()
    E.path = dict(join=join, has_parent=has_parent, parent=parent, has_name=has_name, term=pterm,
                  is_file=lambda st, p: E.uf('path_is_file', [p], z3.BoolSort()), exists=lambda st, p: E.uf('path_exists', [p], z3.BoolSort()))

    def with_name(st, p, s):
        """(state, path) of set_file_name"""
        c = has_name(st, p)
        a, b = E.branch(st, c), E.branch(st, z3.Not(c))
        if a is not None:
            yield a, join(a, parent(a, p), s)
        if b is not None:
            yield b, join(b, p, s)
    E.path['with_name'] = with_name

    @model('PathBuf::pop')
    def pop(E, st, func, args, dty):
        p = pterm(st, E.read_ref(st, args[0]))
        c = has_parent(st, p)
        a, b = E.branch(st, c), E.branch(st, z3.Not(c))
        if a is not None:
            E.write_ref(a, args[0], (), parent(a, p))
            yield Outcome(a, z3.BoolVal(True))
        if b is not None:
            yield Outcome(b, z3.BoolVal(False))

    def comp(E, st, v):
        s = deref(E, st, v)
        if not (is_term(s) and s.sort() == z3.StringSort()):
            raise ToolLimit('path component')
        return s

    @model('PathBuf::push')
    def push(E, st, func, args, dty):
        p, s = pterm(st, E.read_ref(st, args[0])), comp(E, st, args[1])
        E.write_ref(st, args[0], (), join(st, p, s))
        yield Outcome(st, __import__('vc').UNIT)

    @model('Path::join', 'PathBuf::join')
    def pjoin(E, st, func, args, dty):
        yield Outcome(st, join(st, pterm(st, args[0]), comp(E, st, args[1])))

    @model('PathBuf::set_file_name')
    def set_file_name(E, st, func, args, dty):
        p, s = pterm(st, E.read_ref(st, args[0])), comp(E, st, args[1])
        for s2, q in with_name(st, p, s):
            E.write_ref(s2, args[0], (), q)
            yield Outcome(s2, __import__('vc').UNIT)

    @model('Path::with_file_name')
    def with_file_name(E, st, func, args, dty):
        for s2, q in with_name(st, pterm(st, args[0]), comp(E, st, args[1])):
            yield Outcome(s2, q)

    @model('Path::parent')
    def pparent(E, st, func, args, dty):
        p = pterm(st, args[0])
        c = has_parent(st, p)
        a, b = E.branch(st, c), E.branch(st, z3.Not(c))
        if a is not None:
            yield Outcome(a, mk(E, dty, 'Some', parent(a, p)))
        if b is not None:
            yield Outcome(b, mk(E, dty, 'None'))

    @model('Path::is_file', 'Path::exists')
    def is_file(E, st, func, args, dty):
        m = 'path_is_file' if 'is_file' in func else 'path_exists'
        yield Outcome(st, E.uf(m, [pterm(st, args[0])], z3.BoolSort()))

    @model('Path::to_path_buf', 'PathBuf::as_path')
    def same(E, st, func, args, dty):
        yield Outcome(st, pterm(st, args[0]))
