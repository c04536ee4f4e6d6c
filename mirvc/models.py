"""Models of library functions: the assumed contracts on std and on dependencies."""
import re
import z3
from mir import parse_ty, def_key, short, split_top, match_close, find_top
from vc import (VSetIter, VOpqIter, VColl, VAdt, VRef, VBox, VClosure, VFn, VSeq, VIter, VSymIter, VMap, UNIT, UNINIT, Outcome, ToolLimit,
                is_term, zstr, k_int, INT_RANGES)

def deref(E, st, v):
    while True:
        if isinstance(v, VRef):
            v = E.read_ref(st, v)
        elif isinstance(v, VBox):
            v = st.cells[v.cell]
        else:
            return v

def tn(E, dest_ty):
    n = E.nty(dest_ty)
    if n[0] == 'mut':
        n = n[1]
    return E.tname(n)

def mk(E, dest_ty, variant, *vals):
    return VAdt(tn(E, dest_ty), variant, dict(enumerate(vals)))

def inner_ty(E, dest_ty, i=0):
    n = E.nty(dest_ty)
    return n[2][i]

def generics(func):
    """generic arguments of the last path segment, as texts"""
    import mir
    parts = [x for x in split_top(mir.strip_lifetimes(func), '::') if x]
    if parts and parts[-1].startswith('<'):
        return split_top(parts[-1][1:-1])
    return []

import itertools
_ids = itertools.count(1)
def zpy(t):
    """python text of a string literal term"""
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), t.as_string())

def next_id():
    return next(_ids)

# `From` impls of lsp_types enums (macro-generated or plain): source type, enum -> variant
LSP_FROM = {('CodeAction', 'CodeActionOrCommand'): 'CodeAction', ('Command', 'CodeActionOrCommand'): 'Command',
            ('CompletionList', 'CompletionResponse'): 'List', ('TextEdit', 'CompletionTextEdit'): 'Edit'}

def register(E):
    M, T = E.models, E.trait_models

    def model(*names):
        def deco(f):
            for n in names:
                M[n] = f
            return f
        return deco

    def tmodel(*names):
        def deco(f):
            for n in names:
                T[n] = f
            return f
        return deco

    # ------------------------------------------------------------ identity-like
    def ident(E, st, func, args, dty):
        v = args[0]
        n = E.nty(dty)
        if n[0] != 'mut':
            v = deref(E, st, v)
        yield Outcome(st, v)

    for n in ['<_ as ToOwned>::to_owned', '<_ as Clone>::clone', '<_ as Deref>::deref', '<_ as AsRef>::as_ref',
              '<_ as Borrow>::borrow', 'String::as_str', '<_ as DerefMut>::deref_mut', 'Option::cloned',
              'Option::copied', 'Option::as_ref', 'Option::as_deref', 'Box::new', 'Rc::new', 'Arc::new',
              'Vec::as_slice', 'slice::into_vec', '<impl [T]>::into_vec', 'Result::as_ref', 'black_box',
              'std::slice::to_vec', 'must_use', 'Vec::into_boxed_slice', 'String::into_boxed_str', 'String::as_mut_str',
              'str::as_ref', 'String::deref', 'as_bytes']:
        (T if n.startswith('<_') else M)[n] = ident
    M['as_mut'] = None
    del M['as_mut']

    @model('slice::into_vec', 'into_vec', '=into_vec')
    def into_vec(E, st, func, args, dty):
        v = deref(E, st, args[0])
        if isinstance(v, VSeq):
            v = VSeq(v.items, E.tname(inner_ty(E, dty)))
        yield Outcome(st, v)

    @tmodel('<str as ToString>::to_string', '<String as ToString>::to_string', '<char as ToString>::to_string')
    def to_string(E, st, func, args, dty):
        v = deref(E, st, args[0])
        if is_term(v) and v.sort() == z3.StringSort():
            yield Outcome(st, v)
        else:
            yield from display(E, st, func, v)

    def display(E, st, func, v):
        key = def_key(func)
        ts = E.term(st, v)
        yield Outcome(st, E.uf('display:' + ts.sort().name(), [ts], z3.StringSort()))

    @tmodel('<_ as ToString>::to_string')
    def to_string_any(E, st, func, args, dty):
        v = deref(E, st, args[0])
        if is_term(v) and v.sort() == z3.StringSort():
            yield Outcome(st, v)
            return
        tyname = def_key(func)[0][1]
        yield from fmt_value(E, st, v, tyname)

    def fmt_value(E, st, v, tyname):
        """Display of a value as a string"""
        v = deref(E, st, v)
        if is_term(v) and v.sort() == z3.StringSort():
            yield Outcome(st, v)
            return
        if is_term(v) and v.sort().name() == 'Url':
            yield Outcome(st, E.url_str(st, v))
            return
        if tyname and tyname.split('<')[0] not in E.plain_display:
            r = None
            try:
                r = E.resolve(f'<{tyname} as Display>::fmt')
            except ToolLimit:
                r = None
            if r is not None:
                cr, b = r
                cell = st.alloc(z3.StringVal(''))
                E.crate_stack.append(cr)
                E.inlined.add(cr.name + '::' + cr.canon_def(b.name))
                try:
                    outs = E.exec_body(b, [v, VRef(cell)], st)
                finally:
                    E.crate_stack.pop()
                for o in outs:
                    if o.panic:
                        yield o
                    else:
                        yield Outcome(o.st, o.st.cells[cell])
                return
        if is_term(v) and v.sort() == z3.IntSort() and (tyname in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'u128')):
            yield Outcome(st, z3.If(v >= 0, z3.IntToStr(v), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v))))
            return
        t = E.term(st, v)
        E.externs['Display:' + str(tyname)] = E.externs.get('Display:' + str(tyname), 0) + 1
        yield Outcome(st, E.uf('display:' + str(tyname) + ':' + t.sort().name(), [t], z3.StringSort()))
    E.fmt_value = fmt_value

    # ------------------------------------------------------------ fmt
    @model('Argument::new_display')
    def new_display(E, st, func, args, dty):
        g = generics(func)
        ty = g[0] if g else None
        n = E.nty(ty)
        tyname = n[1] if n[0] in ('adt', 'prim') else None
        for o in fmt_value(E, st, args[0], tyname):
            yield o

    @model('Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
    def new_debug(E, st, func, args, dty):
        t = E.term(st, deref(E, st, args[0]))
        nm = def_key(func)[-1]
        yield Outcome(st, E.uf(f'{nm}:' + t.sort().name(), [t], z3.StringSort()))

    @model('Arguments::new_v1')
    def new_v1(E, st, func, args, dty):
        pieces, ar = deref(E, st, args[0]), deref(E, st, args[1])
        parts = []
        for i, p in enumerate(pieces.items):
            parts.append(p)
            if i < len(ar.items):
                parts.append(ar.items[i])
        for x in ar.items[len(pieces.items):]:
            parts.append(x)
        yield Outcome(st, cat(parts))

    @model('Arguments::new_const')
    def new_const(E, st, func, args, dty):
        pieces = deref(E, st, args[0])
        yield Outcome(st, cat(pieces.items))

    @model('Arguments::as_str')
    def args_as_str(E, st, func, args, dty):
        v = deref(E, st, args[0])
        s2 = st.fork()
        yield Outcome(st, mk(E, dty, 'Some', v))

    @model('fmt::format', 'std::fmt::format')
    def fmt_format(E, st, func, args, dty):
        yield Outcome(st, deref(E, st, args[0]))

    @model('Formatter::write_str', 'Formatter::write_fmt', '<Formatter as Write>::write_str', '<Formatter as Write>::write_fmt', 'Formatter::pad')
    def write_str(E, st, func, args, dty):
        f = args[0]
        cur = E.read_ref(st, f)
        E.write_ref(st, f, (), cat([cur, deref(E, st, args[1])]))
        yield Outcome(st, mk(E, dty, 'Ok', UNIT))

    @tmodel('<str as Display>::fmt', '<String as Display>::fmt')
    def str_fmt(E, st, func, args, dty):
        yield from write_str(E, st, func, [args[1], args[0]], dty)

    @tmodel('<_ as Display>::fmt')
    def any_fmt(E, st, func, args, dty):
        for o in fmt_value(E, st, args[0], def_key(func)[0][1]):
            if o.panic:
                yield o
            else:
                yield from write_str(E, o.st, func, [args[1], o.val], dty)

    def cat(parts):
        ps = []
        for p in parts:
            if z3.is_string_value(p) and p.as_string() == '':
                continue
            ps.append(p)
        if not ps:
            return z3.StringVal('')
        if len(ps) == 1:
            return ps[0]
        return z3.Concat(*ps)
    E.cat = cat

    # ------------------------------------------------------------ bool
    @model('<impl bool>::then', 'bool::then', 'then', '=then')
    def bool_then(E, st, func, args, dty):
        b = args[0]
        s = E.branch(st, z3.Not(b))
        if s is not None:
            yield Outcome(s, mk(E, dty, 'None'))
        s = E.branch(st, b)
        if s is not None:
            for o in E.call_value(s, args[1], [], inner_ty(E, dty)):
                yield o if o.panic else Outcome(o.st, mk(E, dty, 'Some', o.val))

    @model('then_some', '=then_some', 'bool::then_some')
    def bool_then_some(E, st, func, args, dty):
        s = E.branch(st, z3.Not(args[0]))
        if s is not None:
            yield Outcome(s, mk(E, dty, 'None'))
        s = E.branch(st, args[0])
        if s is not None:
            yield Outcome(s, mk(E, dty, 'Some', args[1]))

    # ------------------------------------------------------------ Option
    @model('Option::map')
    def opt_map(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            if p is None:
                yield Outcome(s, mk(E, dty, 'None'))
            else:
                for o in E.call_value(s, args[1], [p[0]], inner_ty(E, dty)):
                    yield o if o.panic else Outcome(o.st, mk(E, dty, 'Some', o.val))

    @model('Option::and_then')
    def opt_and_then(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            if p is None:
                yield Outcome(s, mk(E, dty, 'None'))
            else:
                yield from E.call_value(s, args[1], [p[0]], dty)

    @model('Option::filter')
    def opt_filter(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            if p is None:
                yield Outcome(s, mk(E, dty, 'None'))
            else:
                for o in E.call_value(s, args[1], [p[0]], 'bool'):
                    if o.panic:
                        yield o
                        continue
                    a = E.branch(o.st, o.val)
                    if a is not None:
                        yield Outcome(a, mk(E, dty, 'Some', p[0]))
                    b = E.branch(o.st, z3.Not(o.val))
                    if b is not None:
                        yield Outcome(b, mk(E, dty, 'None'))

    @model('Option::or')
    def opt_or(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            yield Outcome(s, args[1] if p is None else mk(E, dty, 'Some', p[0]))

    @model('Option::or_else')
    def opt_or_else(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            if p is None:
                yield from E.call_value(s, args[1], [], dty)
            else:
                yield Outcome(s, mk(E, dty, 'Some', p[0]))

    @model('Option::flatten')
    def opt_flatten(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            if p is None:
                yield Outcome(s, mk(E, dty, 'None'))
            else:
                for s2, q in E.option_cases(s, p[0]):
                    yield Outcome(s2, mk(E, dty, 'None') if q is None else mk(E, dty, 'Some', q[0]))

    @model('Option::and')
    def opt_and(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            yield Outcome(s, mk(E, dty, 'None') if p is None else args[1])

    @model('Option::xor')
    def opt_xor(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            for s2, q in E.option_cases(s, args[1]):
                if p is None and q is not None:
                    yield Outcome(s2, mk(E, dty, 'Some', q[0]))
                elif p is not None and q is None:
                    yield Outcome(s2, mk(E, dty, 'Some', p[0]))
                else:
                    yield Outcome(s2, mk(E, dty, 'None'))

    @model('Option::zip')
    def opt_zip(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            for s2, q in E.option_cases(s, args[1]):
                if p is not None and q is not None:
                    t = VAdt(E.tname(inner_ty(E, dty)), None, {0: p[0], 1: q[0]})
                    yield Outcome(s2, mk(E, dty, 'Some', t))
                else:
                    yield Outcome(s2, mk(E, dty, 'None'))

    @model('Option::unwrap_or')
    def opt_unwrap_or(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            yield Outcome(s, args[1] if p is None else p[0])

    @model('Option::unwrap_or_else')
    def opt_unwrap_or_else(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            if p is None:
                yield from E.call_value(s, args[1], [], dty)
            else:
                yield Outcome(s, p[0])

    def default_of(E, st, dty):
        n = E.nty(dty)
        if n == ('prim', 'bool'):
            return z3.BoolVal(False)
        if n == ('prim', 'str'):
            return z3.StringVal('')
        if n[0] == 'prim':
            return z3.IntVal(0)
        if n[0] == 'adt' and n[1] in ('Vec',):
            return VSeq([], E.tname(n[2][0]))
        if n[0] == 'adt' and n[1] in ('HashSet', 'BTreeSet'):
            return VMap(None, E.tname(n[2][0]), '()')
        if n[0] == 'adt' and n[1] in ('HashMap', 'BTreeMap'):
            return VMap(None, E.tname(n[2][0]), E.tname(n[2][1]))
        if n[0] == 'adt' and n[1] == 'Option':
            return mk(E, dty, 'None')
        if n[0] == 'adt' and n[1] == 'TextSize':
            return z3.IntVal(0)
        if n[0] == 'adt' and not n[2] and ('lsp_types::' + n[1]) in E.defs.structs and n[1] in ('WorkspaceEdit',):
            # derived Default: every field has its default
            fs = [default_of(E, st, ty) for _, ty in E.defs.structs['lsp_types::' + n[1]]]
            if all(f is not None for f in fs):
                return VAdt(n[1], None, dict(enumerate(fs)))
        return None
    E.default_of = default_of

    @model('Option::unwrap_or_default', 'Result::unwrap_or_default')
    def opt_unwrap_or_default(E, st, func, args, dty):
        isopt = def_key(func)[-2] == 'Option'
        for s, vn, v in E.split_enum(st, args[0], 'Option' if isopt else 'Result'):
            if vn in ('Some', 'Ok'):
                yield Outcome(s, E.payload(s, v, vn))
            else:
                d = default_of(E, s, dty)
                if d is None:
                    yield from E.call(s, f'<{dty if isinstance(dty, str) else tn(E, dty)} as std::default::Default>::default', [], dty)
                else:
                    yield Outcome(s, d)

    @tmodel('<_ as Default>::default')
    def any_default(E, st, func, args, dty):
        d = default_of(E, st, dty)
        if d is None:
            yield Outcome(st, E.symval(st, dty, 'default:' + tn(E, dty)))
        else:
            yield Outcome(st, d)

    @model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
    def opt_is(E, st, func, args, dty):
        m = def_key(func)[-1]
        v = deref(E, st, args[0])
        en, var = {'is_some': ('Option', 'Some'), 'is_none': ('Option', 'None'), 'is_ok': ('Result', 'Ok'), 'is_err': ('Result', 'Err')}[m]
        if isinstance(v, VAdt) and v.variant:
            yield Outcome(st, z3.BoolVal(v.variant == var))
        else:
            d = E.discr(st, v)
            yield Outcome(st, d == E.defs.variant_index(en, var))

    @model('Option::is_some_and', 'Result::is_ok_and')
    def opt_is_some_and(E, st, func, args, dty):
        for s, vn, v in E.split_enum(st, args[0], 'Option' if 'some' in def_key(func)[-1] else 'Result'):
            if vn in ('Some', 'Ok'):
                yield from E.call_value(s, args[1], [E.payload(s, v, vn)], 'bool')
            else:
                yield Outcome(s, z3.BoolVal(False))

    @model('Option::map_or')
    def opt_map_or(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            if p is None:
                yield Outcome(s, args[1])
            else:
                yield from E.call_value(s, args[2], [p[0]], dty)

    @model('Option::map_or_else')
    def opt_map_or_else(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            if p is None:
                yield from E.call_value(s, args[1], [], dty)
            else:
                yield from E.call_value(s, args[2], [p[0]], dty)

    @model('Option::expect', 'Option::unwrap', 'Result::expect', 'Result::unwrap')
    def opt_expect(E, st, func, args, dty):
        isopt = def_key(func)[-2] == 'Option'
        for s, vn, v in E.split_enum(st, args[0], 'Option' if isopt else 'Result'):
            if vn in ('Some', 'Ok'):
                yield Outcome(s, E.payload(s, v, vn))
            else:
                yield Outcome(s, None, panic=f'{"::".join(map(str, def_key(func)[-2:]))} on {vn}')

    @model('Option::ok_or')
    def opt_ok_or(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            yield Outcome(s, mk(E, dty, 'Err', args[1]) if p is None else mk(E, dty, 'Ok', p[0]))

    @model('Option::ok_or_else')
    def opt_ok_or_else(E, st, func, args, dty):
        for s, p in E.option_cases(st, args[0]):
            if p is None:
                for o in E.call_value(s, args[1], [], inner_ty(E, dty, 1)):
                    yield o if o.panic else Outcome(o.st, mk(E, dty, 'Err', o.val))
            else:
                yield Outcome(s, mk(E, dty, 'Ok', p[0]))

    @model('Option::take')
    def opt_take(E, st, func, args, dty):
        v = E.read_ref(st, args[0])
        E.write_ref(st, args[0], (), mk(E, dty, 'None'))
        yield Outcome(st, v)

    @model('mem::take')
    def mem_take(E, st, func, args, dty):
        v = E.read_ref(st, args[0])
        d = default_of(E, st, dty)
        if d is None:
            raise ToolLimit('mem::take default')
        E.write_ref(st, args[0], (), d)
        yield Outcome(st, v)

    @model('mem::replace')
    def mem_replace(E, st, func, args, dty):
        v = E.read_ref(st, args[0])
        E.write_ref(st, args[0], (), args[1])
        yield Outcome(st, v)

    @model('Option::as_mut')
    def opt_as_mut(E, st, func, args, dty):
        r = args[0]
        v = E.read_ref(st, r)
        for s, vn, vv in E.split_enum(st, v, 'Option'):
            if vn == 'None':
                yield Outcome(s, mk(E, dty, 'None'))
            else:
                fty = vv.sort().name() if is_term(vv) else None
                pty = E.payload_ty(fty, 'Some') if fty else '?'
                yield Outcome(s, mk(E, dty, 'Some', VRef(r.cell, r.projs + (('downcast', 'Some'), ('field', 0, pty)))))

    # ------------------------------------------------------------ Result
    @model('Result::map')
    def res_map(E, st, func, args, dty):
        for s, vn, v in E.split_enum(st, args[0], 'Result'):
            p = E.payload(s, v, vn)
            if vn == 'Err':
                yield Outcome(s, mk(E, dty, 'Err', p))
            else:
                for o in E.call_value(s, args[1], [p], inner_ty(E, dty)):
                    yield o if o.panic else Outcome(o.st, mk(E, dty, 'Ok', o.val))

    @model('Result::map_err')
    def res_map_err(E, st, func, args, dty):
        for s, vn, v in E.split_enum(st, args[0], 'Result'):
            p = E.payload(s, v, vn)
            if vn == 'Ok':
                yield Outcome(s, mk(E, dty, 'Ok', p))
            else:
                for o in E.call_value(s, args[1], [p], inner_ty(E, dty, 1)):
                    yield o if o.panic else Outcome(o.st, mk(E, dty, 'Err', o.val))

    @model('Result::and_then')
    def res_and_then(E, st, func, args, dty):
        for s, vn, v in E.split_enum(st, args[0], 'Result'):
            p = E.payload(s, v, vn)
            if vn == 'Err':
                yield Outcome(s, mk(E, dty, 'Err', p))
            else:
                yield from E.call_value(s, args[1], [p], dty)

    @model('Result::ok', 'Result::err')
    def res_ok(E, st, func, args, dty):
        want = 'Ok' if def_key(func)[-1] == 'ok' else 'Err'
        for s, vn, v in E.split_enum(st, args[0], 'Result'):
            yield Outcome(s, mk(E, dty, 'Some', E.payload(s, v, vn)) if vn == want else mk(E, dty, 'None'))

    @model('Result::unwrap_or')
    def res_unwrap_or(E, st, func, args, dty):
        for s, vn, v in E.split_enum(st, args[0], 'Result'):
            yield Outcome(s, E.payload(s, v, vn) if vn == 'Ok' else args[1])

    @model('Result::unwrap_or_else')
    def res_unwrap_or_else(E, st, func, args, dty):
        for s, vn, v in E.split_enum(st, args[0], 'Result'):
            p = E.payload(s, v, vn)
            if vn == 'Ok':
                yield Outcome(s, p)
            else:
                yield from E.call_value(s, args[1], [p], dty)

    # ------------------------------------------------------------ ? operator
    @tmodel('<Option as Try>::branch', '<Result as Try>::branch')
    def try_branch(E, st, func, args, dty):
        isopt = def_key(func)[0][1] == 'Option'
        for s, vn, v in E.split_enum(st, args[0], 'Option' if isopt else 'Result'):
            if vn in ('Some', 'Ok'):
                yield Outcome(s, mk(E, dty, 'Continue', E.payload(s, v, vn)))
            elif vn == 'None':
                yield Outcome(s, mk(E, dty, 'Break', VAdt('Option<Infallible>', 'None', {})))
            else:
                yield Outcome(s, mk(E, dty, 'Break', VAdt('Result<Infallible>', 'Err', {0: E.payload(s, v, 'Err')})))

    @tmodel('<Option as FromResidual>::from_residual')
    def opt_residual(E, st, func, args, dty):
        yield Outcome(st, mk(E, dty, 'None'))

    @tmodel('<Result as FromResidual>::from_residual')
    def res_residual(E, st, func, args, dty):
        e = E.payload(st, args[0], 'Err')
        want = inner_ty(E, dty, 1)
        if is_term(e) and e.sort() == E.sort(want):
            yield Outcome(st, mk(E, dty, 'Err', e))
        else:
            t = E.term(st, e)
            yield Outcome(st, mk(E, dty, 'Err', E.symval(st, want, 'into', [t])))

    # ------------------------------------------------------------ comparison
    @tmodel('<_ as PartialEq>::eq', '<_ as PartialEq>::ne')
    def partial_eq(E, st, func, args, dty):
        a, b = deref(E, st, args[0]), deref(E, st, args[1])
        e = eq_formula(E, st, a, b)
        yield Outcome(st, z3.Not(e) if def_key(func)[-1] == 'ne' else e)

    def eq_formula(E, st, a, b):
        a, b = deref(E, st, a), deref(E, st, b)
        if is_term(a) and is_term(b) and a.sort() == b.sort():
            return a == b
        if isinstance(a, VSeq) and isinstance(b, VSeq):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And([eq_formula(E, st, x, y) for x, y in zip(a.items, b.items)] or [z3.BoolVal(True)])
        if isinstance(a, VAdt) and isinstance(b, VAdt) and a.base is None and b.base is None:
            if a.variant != b.variant:
                return z3.BoolVal(False)
            return z3.And([eq_formula(E, st, a.fields[i], b.fields[i]) for i in a.fields] or [z3.BoolVal(True)])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VAdt) and x.variant is not None and x.base is None and is_term(y) and '<' in y.sort().name():
                en = x.ty.split('<')[0]
                d = E.discr(st, y) == E.defs.variant_index(en, x.variant)
                fs = []
                for i, fv in x.fields.items():
                    fv = deref(E, st, fv)
                    ft = E.payload_ty(y.sort().name(), x.variant)
                    fs.append(eq_formula(E, st, fv, E.field_of_term(st, y, None, x.variant, i, ft)))
                return z3.And(d, *fs)
        ta, tb = E.term(st, a), E.term(st, b)
        if ta.sort() != tb.sort():
            # comparison across types (e.g. OsStr with str): an unspecified but deterministic relation
            return E.uf('eq:' + ta.sort().name() + ':' + tb.sort().name(), [ta, tb], z3.BoolSort())
        return ta == tb
    E.eq_formula = eq_formula

    @model('intrinsics::discriminant_value')
    def discr_value(E, st, func, args, dty):
        yield Outcome(st, E.discr(st, deref(E, st, args[0])))

    @tmodel('<_ as PartialOrd>::lt', '<_ as PartialOrd>::le', '<_ as PartialOrd>::gt', '<_ as PartialOrd>::ge')
    def partial_ord(E, st, func, args, dty):
        a, b = deref(E, st, args[0]), deref(E, st, args[1])
        if not (is_term(a) and a.sort() == z3.IntSort()):
            raise ToolLimit('ordering on non-integers')
        m = def_key(func)[-1]
        yield Outcome(st, {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[m])

    # ------------------------------------------------------------ conversions
    @tmodel('<_ as Into>::into', '<_ as From>::from')
    def into(E, st, func, args, dty):
        v = args[0]
        n = E.nty(dty)
        vv = deref(E, st, v)
        if is_term(vv) and vv.sort() == E.sort(n) :
            yield Outcome(st, vv)
            return
        k = def_key(func)
        if k[-1] == 'into':
            # blanket impl: Into is From
            src = k[0][1]
            dst = n[1] if n[0] == 'adt' else E.tname(n)
            full = func
            r = None
            try:
                r = E.resolve(f'<{dst} as std::convert::From<{src}>>::from')
            except ToolLimit:
                r = None
            if r is not None:
                cr, b = r
                E.inlined.add(cr.name + '::' + cr.canon_def(b.name))
                E.crate_stack.append(cr)
                try:
                    outs = E.exec_body(b, [v], st)
                finally:
                    E.crate_stack.pop()
                yield from outs
                return
        if isinstance(vv, VSeq) and n[0] == 'adt' and n[1] in ('HashMap', 'BTreeMap') and all(isinstance(x, VAdt) and len(x.fields) == 2 for x in vv.items):
            yield Outcome(st, VMap(None, E.tname(n[2][0]), E.tname(n[2][1]), [(x.fields[0], True, x.fields[1]) for x in vv.items]))
            return
        if isinstance(vv, VSeq):
            yield Outcome(st, vv)
            return
        lv = LSP_FROM.get((vv.ty if isinstance(vv, VAdt) else vv.sort().name() if is_term(vv) else '', n[1] if n[0] == 'adt' else ''))
        if lv:
            yield Outcome(st, VAdt(n[1], lv, {0: vv}))
            return
        if n == ('adt', 'Message', ()):
            src = vv.ty if isinstance(vv, VAdt) else vv.sort().name()
            if src in ('Request', 'Response', 'Notification'):
                yield Outcome(st, VAdt('Message', src, {0: vv}))
                return
        t = E.term(st, vv)
        E.externs['::'.join(map(str, k))] = E.externs.get('::'.join(map(str, k)), 0) + 1
        yield Outcome(st, E.symval(st, n, f'into:{t.sort().name()}', [t]))

    # ------------------------------------------------------------ strings
    def s0(E, st, v):
        v = deref(E, st, v)
        if not (is_term(v) and v.sort() == z3.StringSort()):
            raise ToolLimit('string expected, got ' + E.vname(v))
        return v

    @model('str::is_empty', 'String::is_empty')
    def str_is_empty(E, st, func, args, dty):
        yield Outcome(st, s0(E, st, args[0]) == z3.StringVal(''))

    @model('str::len', 'String::len')
    def str_len(E, st, func, args, dty):
        yield Outcome(st, z3.Length(s0(E, st, args[0])))

    @model('String::new')
    def string_new(E, st, func, args, dty):
        yield Outcome(st, z3.StringVal(''))

    def pat_str(E, st, v):
        v = deref(E, st, v)
        if is_term(v) and v.sort() == z3.StringSort():
            return v
        if is_term(v) and z3.is_int_value(v):
            return zstr(chr(v.as_long()))
        return None

    @model('str::starts_with', 'str::ends_with', 'str::contains')
    def str_pat(E, st, func, args, dty):
        s, p = s0(E, st, args[0]), pat_str(E, st, args[1])
        m = def_key(func)[-1]
        if p is None:
            if isinstance(args[1], VFn) or isinstance(args[1], VClosure):
                t = E.term(st, args[1])
                yield Outcome(st, E.uf('str:' + m, [s, t], z3.BoolSort()))
                return
            raise ToolLimit('string pattern')
        x = E.affix(s, p, m)
        if x is not None:
            yield Outcome(st, x)
            return
        yield Outcome(st, {'starts_with': z3.PrefixOf(p, s), 'ends_with': z3.SuffixOf(p, s), 'contains': z3.Contains(s, p)}[m])

    @model('str::strip_prefix')
    def strip_prefix(E, st, func, args, dty):
        s, p = s0(E, st, args[0]), pat_str(E, st, args[1])
        if p is None:
            raise ToolLimit('string pattern')
        c = z3.PrefixOf(p, s)
        a = E.branch(st, c)
        if a is not None:
            yield Outcome(a, mk(E, dty, 'Some', z3.SubString(s, z3.Length(p), z3.Length(s) - z3.Length(p))))
        b = E.branch(st, z3.Not(c))
        if b is not None:
            yield Outcome(b, mk(E, dty, 'None'))

    @model('str::strip_suffix')
    def strip_suffix(E, st, func, args, dty):
        s, p = s0(E, st, args[0]), pat_str(E, st, args[1])
        if p is None:
            raise ToolLimit('string pattern')
        c = z3.SuffixOf(p, s)
        a = E.branch(st, c)
        if a is not None:
            yield Outcome(a, mk(E, dty, 'Some', z3.SubString(s, 0, z3.Length(s) - z3.Length(p))))
        b = E.branch(st, z3.Not(c))
        if b is not None:
            yield Outcome(b, mk(E, dty, 'None'))

    # ------------------------------------------------------------ Url: a wrapper around its text
    @model('Url::as_str', '<Url as AsRef>::as_ref', 'Url::into_string')
    def url_str(E, st, func, args, dty):
        yield Outcome(st, E.uf('url_str', [E.term(st, deref(E, st, args[0]))], z3.StringSort()))
    E.url_str = lambda st, u: E.uf('url_str', [E.term(st, u)], z3.StringSort())

    # ------------------------------------------------------------ HashMap / HashSet
    @model('HashMap::new', 'HashSet::new', 'BTreeMap::new', 'BTreeSet::new')
    def map_new(E, st, func, args, dty):
        yield Outcome(st, default_of(E, st, dty))

    @model('HashMap::insert', 'BTreeMap::insert')
    def map_insert(E, st, func, args, dty):
        r = args[0]
        m = E.as_map(st, E.read_ref(st, r))
        k, v = deref(E, st, args[1]), args[2]
        for s, present, old in E.map_lookup(st, m, k):
            mm = E.as_map(s, E.read_ref(s, r))
            E.write_ref(s, r, (), VMap(mm.base, mm.kty, mm.vty, mm.ups + ((k, True, v),)))
            yield Outcome(s, mk(E, dty, 'Some', old) if present else mk(E, dty, 'None'))

    @model('HashSet::insert', 'BTreeSet::insert')
    def set_insert(E, st, func, args, dty):
        r = args[0]
        m = E.as_map(st, E.read_ref(st, r))
        k = deref(E, st, args[1])
        had = E.map_has(st, m, k)
        E.write_ref(st, r, (), VMap(m.base, m.kty, m.vty, m.ups + ((k, True, UNIT),)))
        yield Outcome(st, z3.Not(had))

    @model('HashMap::get', 'BTreeMap::get')
    def map_get(E, st, func, args, dty):
        m = E.as_map(st, deref(E, st, args[0]))
        k = deref(E, st, args[1])
        for s, present, v in E.map_lookup(st, m, k):
            yield Outcome(s, mk(E, dty, 'Some', v) if present else mk(E, dty, 'None'))

    @model('HashMap::get_mut', 'BTreeMap::get_mut')
    def map_get_mut(E, st, func, args, dty):
        r = args[0]
        m = E.as_map(st, E.read_ref(st, r))
        k = deref(E, st, args[1])
        for s, present, v in E.map_lookup(st, m, k):
            if present:
                # normalise: make the looked-up value the newest update for this key
                mm = E.as_map(s, E.read_ref(s, r))
                E.write_ref(s, r, (), VMap(mm.base, mm.kty, mm.vty, mm.ups + ((k, True, v),)))
                yield Outcome(s, mk(E, dty, 'Some', VRef(r.cell, r.projs + (('mapval', k),))))
            else:
                yield Outcome(s, mk(E, dty, 'None'))

    @model('HashMap::remove', 'HashSet::remove', 'BTreeMap::remove', 'HashSet::take')
    def map_remove(E, st, func, args, dty):
        r = args[0]
        isset = 'Set' in def_key(func)[-2]
        m = E.as_map(st, E.read_ref(st, r))
        k = deref(E, st, args[1])
        for s, present, v in E.map_lookup(st, m, k):
            mm = E.as_map(s, E.read_ref(s, r))
            E.write_ref(s, r, (), VMap(mm.base, mm.kty, mm.vty, mm.ups + ((k, False, None),)))
            if isset and def_key(func)[-1] == 'remove':
                yield Outcome(s, z3.BoolVal(present))
            else:
                yield Outcome(s, mk(E, dty, 'Some', v if not isset else k) if present else mk(E, dty, 'None'))

    @model('HashMap::contains_key', 'HashSet::contains', 'BTreeMap::contains_key', 'BTreeSet::contains')
    def map_contains(E, st, func, args, dty):
        m = E.as_map(st, deref(E, st, args[0]))
        k = deref(E, st, args[1])
        yield Outcome(st, E.map_has(st, m, k))

    @model('HashMap::is_empty', 'HashSet::is_empty', 'BTreeMap::is_empty', 'BTreeSet::is_empty')
    def map_is_empty(E, st, func, args, dty):
        m = E.as_map(st, deref(E, st, args[0]))
        if m.base is None and not m.ups:
            yield Outcome(st, z3.BoolVal(True))
            return
        if not m.ups:
            # empty iff no key present; the witness key is a Skolem constant
            e = E.uf('mapempty', [m.base], z3.BoolSort())
            ks = E.sort(E.nty_from_name(m.kty))
            kk = z3.Const(f'k!{id(m)}', ks)
            has = lambda x: E.uf('maphas', [m.base, x], z3.BoolSort())
            w = E.uf('mapwitness', [m.base], ks)
            a = E.branch(st, e)
            if a is not None:
                a.assume(z3.ForAll([kk], z3.Not(has(kk))))
                yield Outcome(a, z3.BoolVal(True))
            b = E.branch(st, z3.Not(e))
            if b is not None:
                b.assume(has(w))
                yield Outcome(b, z3.BoolVal(False))
            return
        if m.ups[-1][1]:
            yield Outcome(st, z3.BoolVal(False))
            return
        raise ToolLimit('is_empty after removals')

    # ------------------------------------------------------------ Vec
    @model('Vec::new', 'Vec::with_capacity')
    def vec_new(E, st, func, args, dty):
        if E.log_new and 'log' in st.ghost and f'Vec<{E.tname(inner_ty(E, dty))}>' == E.log_sort:
            yield Outcome(st, z3.Const('log!new', E._sort_named(E.log_sort)))
            return
        yield Outcome(st, VSeq([], E.tname(inner_ty(E, dty))))

    @model('Vec::push')
    def vec_push(E, st, func, args, dty):
        r = args[0]
        v = E.read_ref(st, r)
        if isinstance(v, VSeq):
            E.write_ref(st, r, (), VSeq(v.items + [args[1]], v.ety))
            yield Outcome(st, UNIT)
            return
        if is_term(v) and 'log' in st.ghost and v.sort().name() == E.log_sort:
            # an append-only collector: what is appended is recorded in order
            st.ghost['log'] = list(st.ghost['log']) + [('push', args[1])]
            yield Outcome(st, UNIT)
            return
        raise ToolLimit('push on symbolic vector')

    @tmodel('<_ as Extend>::extend')
    def vec_extend(E, st, func, args, dty):
        v = E.read_ref(st, args[0])
        x = deref(E, st, args[1])
        if is_term(v) and 'log' in st.ghost and v.sort().name() == E.log_sort:
            if isinstance(x, VAdt) and x.ty.startswith('Option<') or is_term(x) and x.sort().name().startswith('Option<'):
                for s, p in E.option_cases(st, x):
                    if p is not None:
                        s.ghost['log'] = list(s.ghost['log']) + [('push', p[0])]
                    yield Outcome(s, UNIT)
                return
            st.ghost['log'] = list(st.ghost['log']) + ([('push', y) for y in x.items] if isinstance(x, (VSeq, VIter)) else [('extend', x)])
            yield Outcome(st, UNIT)
            return
        if isinstance(v, VSeq) and isinstance(x, (VSeq, VIter)):
            E.write_ref(st, args[0], (), VSeq(v.items + list(x.items), v.ety))
            yield Outcome(st, UNIT)
            return
        raise ToolLimit('extend on symbolic vector')

    @model('Vec::append')
    def vec_append(E, st, func, args, dty):
        x = E.read_ref(st, args[1])
        for o in vec_extend(E, st, func, [args[0], x], dty):
            if isinstance(x, VSeq):
                E.write_ref(o.st, args[1], (), VSeq([], x.ety))
            yield o

    @model('Vec::is_empty', 'slice::is_empty', '<impl [T]>::is_empty')
    def vec_is_empty(E, st, func, args, dty):
        yield Outcome(st, E.seq_len(st, deref(E, st, args[0])) == 0)

    @model('Vec::len', 'slice::len')
    def vec_len(E, st, func, args, dty):
        yield Outcome(st, E.seq_len(st, deref(E, st, args[0])))

    @model('slice::first', 'slice::last', 'slice::get')
    def seq_first(E, st, func, args, dty):
        v = deref(E, st, args[0])
        m = def_key(func)[-1]
        if isinstance(v, VSeq):
            if m == 'get':
                i = k_int(args[1])
                if i is None:
                    raise ToolLimit('get symbolic index')
            else:
                i = 0 if m == 'first' else len(v.items) - 1
            yield Outcome(st, mk(E, dty, 'Some', v.items[i]) if 0 <= i < len(v.items) else mk(E, dty, 'None'))
            return
        n = E.seq_len(st, v)
        if isinstance(v, VColl):
            v = E.term(st, v)
        i = {'first': z3.IntVal(0), 'last': n - 1}.get(m)
        if i is None:
            i = args[1]
        a = E.branch(st, i < n) if m == 'get' else E.branch(st, n > 0)
        if a is not None:
            yield Outcome(a, mk(E, dty, 'Some', E.symval(a, inner_ty(E, dty), 'at', [v, z3.simplify(i)])))
        b = E.branch(st, i >= n) if m == 'get' else E.branch(st, n == 0)
        if b is not None:
            yield Outcome(b, mk(E, dty, 'None'))

    @model('slice::contains', '<impl [T]>::contains')
    def seq_contains(E, st, func, args, dty):
        v, x = deref(E, st, args[0]), deref(E, st, args[1])
        if isinstance(v, VSeq):
            yield Outcome(st, z3.Or([E.eq_formula(E, st, y, x) for y in v.items] or [z3.BoolVal(False)]))
            return
        xt = E.term(st, x)
        c = E.uf('contains', [v, xt], z3.BoolSort())
        i = z3.Int('i!q')
        n = E.seq_len(st, v)
        at = lambda j: E.uf('at', [v, j], xt.sort())
        w = E.uf('containsw', [v, xt], z3.IntSort())
        st.assume(z3.Implies(c, z3.And(w >= 0, w < n, at(w) == xt)))
        st.assume(z3.Implies(z3.Not(c), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), at(i) != xt))))
        yield Outcome(st, c)

    # ------------------------------------------------------------ iterators
    def elem_ty(E, v):
        m = re.match(r'^Vec<(.*)>$', v.sort().name())
        return m.group(1) if m else None

    @model('slice::iter', 'slice::iter_mut')
    def seq_iter(E, st, func, args, dty):
        v = deref(E, st, args[0])
        if isinstance(v, VSeq):
            yield Outcome(st, VIter(v.items))
        elif is_term(v) and v.sort().name().startswith('Vec<'):
            yield Outcome(st, VSymIter(v, elem_ty(E, v)))
        elif isinstance(v, VColl):
            yield Outcome(st, v.it)
        else:
            raise ToolLimit('iter over ' + E.vname(v))

    @model('HashMap::iter', 'BTreeMap::iter', 'HashSet::iter', 'BTreeSet::iter', 'HashMap::keys', 'HashMap::values', 'HashMap::into_iter',
           'HashMap::into_keys', 'HashMap::into_values', 'HashSet::drain', 'HashMap::drain')
    def map_iter(E, st, func, args, dty):
        k = def_key(func)
        m = E.as_map(st, deref(E, st, args[0]))
        kind = 'k' if 'Set' in k[-2] or 'keys' in k[-1] else 'v' if 'values' in k[-1] else 'kv'
        if k[-1] == 'drain':
            E.write_ref(st, args[0], (), VMap(None, m.kty, m.vty))
        if m.base is None and all(p for _, p, _ in m.ups) and len(m.ups) <= 1:
            yield Outcome(st, VIter([map_entry(E, st, x, v, kind, m) for x, _, v in m.ups]))
            return
        yield Outcome(st, VSetIter(m, kind))

    def map_entry(E, st, k, v, kind, m):
        if kind == 'k':
            return k
        if kind == 'v':
            return v
        return VAdt(f'({m.kty},{m.vty})', None, {0: k, 1: v})

    def iter_elem(E, st, it):
        """an arbitrary element of the source, pushed through the stages: yields (state, source item, kept, value)"""
        n = next_id()
        if isinstance(it, VSymIter):
            s = st.fork()
            i = z3.Int(f'idx!{n}')
            ln = E.seq_len(s, it.src)
            s.assume(z3.And(i >= 0, i < ln))
            if not E.feasible(s):
                return
            s.ghost['idx'] = i
            srcs = [(s, E.symval(s, it.ety, 'at', [it.src, i]))]
        elif isinstance(it, VSetIter):
            s = st.fork()
            k = E.symval(s, E.nty_from_name(it.map.kty), f'key!{n}')
            srcs = []
            for s2, present, v in E.map_lookup(s, it.map, k):
                if present:
                    srcs.append((s2, map_entry(E, s2, k, v, it.kind, it.map)))
        else:
            raise ToolLimit('element of ' + type(it).__name__)
        states = [(s, x, True, x) for s, x in srcs]
        for si, (k, g) in enumerate(it.stages):
            ns = []
            for s, x, kept, y in states:
                if not kept:
                    ns.append((s, x, kept, y))
                    continue
                if k == 'tail1':
                    if E.bound:
                        raise ToolLimit('stage ' + k)
                    # all but the first that gets here
                    j = z3.Int('j!skip')
                    before = z3.Exists([j], z3.And(j >= 0, j < s.ghost['idx'], elem_formula(E, s, VSymIter(it.src, it.ety, it.stages[:si]), j, None, 'any')))
                    a = E.branch(s, before)
                    if a is not None:
                        ns.append((a, x, True, y))
                    b = E.branch(s, z3.Not(before))
                    if b is not None:
                        ns.append((b, x, False, None))
                    continue
                if k == 'enumerate':
                    if isinstance(it, VSymIter) and it.stages[0][0] == k and len([q for q in it.stages if q[0] == k]) == 1 and (not it.started or g == 'from the start'):
                        j = s.ghost['idx']
                    else:
                        j = z3.Int(f'enum!{next_id()}')
                        s.assume(j >= 0)
                    ns.append((s, x, True, VAdt('(usize,_)', None, {0: j, 1: y})))
                    continue
                if k in ('rev', 'inspect'):
                    ns.append((s, x, True, y))
                    continue
                if k == 'unique':
                    # the first element per key stays, later ones are dropped
                    ns.append((s.fork(), x, True, y))
                    s.ghost['dup'] = True
                    ns.append((s, x, False, y))
                    continue
                if k == 'skip' and isinstance(it, VSymIter) and it.stages[0] == (k, g) and is_term(g):
                    # the first stage: positions are those of the source
                    a = E.branch(s, s.ghost['idx'] >= g)
                    if a is not None:
                        ns.append((a, x, True, y))
                    b = E.branch(s, s.ghost['idx'] < g)
                    if b is not None:
                        ns.append((b, x, False, None))
                    continue
                if k in ('take', 'skip', 'take_while', 'skip_while'):
                    # position unknown: the element may be dropped or kept
                    ns.append((s.fork(), x, True, y))
                    ns.append((s, x, False, None))
                    continue
                if k == 'chain':
                    raise ToolLimit('element through ' + k)
                for o in E.call_value(s, g, [y], 'bool' if k == 'filter' else None):
                    if o.panic:
                        if any(x in str(o.panic) for x in E.pre_panics):
                            continue
                        raise ToolLimit('panic inside an iterator closure: ' + str(o.panic))
                    if k == 'map':
                        ns.append((o.st, x, True, o.val))
                    elif k == 'filter':
                        a = E.branch(o.st, o.val)
                        if a is not None:
                            ns.append((a, x, True, y))
                        b = E.branch(o.st, z3.Not(o.val))
                        if b is not None:
                            ns.append((b, x, False, y))
                    elif k == 'filter_map':
                        for s2, p in E.option_cases(o.st, o.val):
                            ns.append((s2, x, p is not None, None if p is None else p[0]))
                    elif k == 'flat_map':
                        w = deref(E, o.st, o.val)
                        if isinstance(w, VAdt) and w.ty.startswith('Option') or is_term(w) and w.sort().name().startswith('Option<'):
                            for s2, p in E.option_cases(o.st, w):
                                ns.append((s2, x, p is not None, None if p is None else p[0]))
                        elif isinstance(w, (VSeq, VIter)):
                            if not w.items:
                                ns.append((o.st, x, False, None))
                            for q in w.items:
                                ns.append((o.st.fork(), x, True, q))
                        else:
                            w2 = as_iter(E, o.st, w)
                            if w2 is None:
                                raise ToolLimit('flat_map result')
                            for s2, _, kp, y2 in iter_elem(E, o.st, w2):
                                ns.append((s2, x, kp, y2))
                            e = o.st.fork()
                            e.ghost['inner_none'] = True   # the inner sequence may be empty
                            ns.append((e, x, False, None))
                    else:
                        raise ToolLimit('stage ' + k)
            states = ns
        yield from states
    E.iter_elem = iter_elem

    def iter_parts(E, st, it):
        """the chained iterators an iterator is made of, in order"""
        if isinstance(it, (VSymIter, VSetIter)):
            for k in range(len(it.stages) - 1, -1, -1):
                if it.stages[k][0] == 'chain':
                    rest = it.stages[k + 1:]
                    if any(r[0] not in ('map', 'filter', 'filter_map', 'flat_map', 'unique') for r in rest):
                        raise ToolLimit('adaptor after chain')
                    head = VSymIter(it.src, it.ety, it.stages[:k], it.started) if isinstance(it, VSymIter) else VSetIter(it.map, it.kind, it.stages[:k])
                    tail = as_iter(E, st, it.stages[k][1])
                    if tail is None:
                        raise ToolLimit('chained ' + E.vname(it.stages[k][1]))
                    out = iter_parts(E, st, head) + iter_parts(E, st, tail)
                    if not rest:
                        return out
                    if not all(isinstance(p, VSymIter) for p in out):
                        raise ToolLimit('adaptor after chain')
                    # an adaptor applied to the chain is applied to each part (`unique`: over all of them)
                    return [VSymIter(p.src, p.ety, p.stages + tuple(rest), p.started) for p in out]
        return [it]
    E.iter_parts = iter_parts

    def as_iter(E, st, v):
        v = deref(E, st, v)
        if isinstance(v, (VIter, VSymIter, VSetIter, VOpqIter)):
            return v
        if isinstance(v, VColl):
            return v.it
        if isinstance(v, VSeq):
            return VIter(v.items)
        if is_term(v) and v.sort().name().startswith('Vec<'):
            return VSymIter(v, elem_ty(E, v))
        if isinstance(v, VMap):
            return VSetIter(v, 'k' if v.vty == '()' else 'kv')
        if is_term(v) and re.match(r'(Hash|BTree)(Map|Set)<', v.sort().name()):
            mm = E.as_map(st, v)
            return VSetIter(mm, 'k' if mm.vty == '()' else 'kv')
        return None
    E.as_iter = as_iter

    def item_name(E, n):
        """the name under which symval takes an item type; None if items are not plain values"""
        while n[0] in ('ref', 'mut'):
            if n[0] == 'mut':
                return None
            n = n[1]
        if n[0] in ('prim', 'adt'):
            return E.tname(n)
        return None

    def stage_item(E, m, f):
        """item type an adaptor's closure or function takes"""
        try:
            if isinstance(f, VClosure):
                cr, b = E.find_closure(f.cid)
                if len(b.argtys) < 2:
                    return None
                ty = b.argtys[1]
            elif isinstance(f, VFn):
                r = E.resolve(f.path)
                if r is None or len(r[1].argtys) != 1:
                    k = def_key(f.path)
                    if isinstance(k[0], tuple) and k[0][2] == 'AstNode' and k[-1] in ('cast', 'can_cast'):
                        ty = 'rowan::api::SyntaxNode<RustLanguage>'
                    else:
                        return None
                else:
                    ty = r[1].argtys[0]
            else:
                return None
            if '&mut' in ty or re.search(r'\b[A-Z]\b|impl ', ty):
                return None
            return item_name(E, E.nty(ty))
        except ToolLimit:
            return None

    @tmodel('<_ as IntoIterator>::into_iter')
    def into_iter(E, st, func, args, dty):
        v = deref(E, st, args[0])
        if isinstance(v, (VIter, VSymIter, VSetIter, VOpqIter)):
            yield Outcome(st, v)
        elif isinstance(v, VSeq):
            yield Outcome(st, VIter(v.items))
        elif isinstance(v, VAdt) and v.ty.startswith('Option<'):
            for s, p in E.option_cases(st, v):
                yield Outcome(s, VIter([] if p is None else [p[0]]))
        elif is_term(v) and v.sort().name().startswith('Option<'):
            for s, p in E.option_cases(st, v):
                yield Outcome(s, VIter([] if p is None else [p[0]]))
        elif is_term(v) and v.sort().name().startswith('Vec<'):
            yield Outcome(st, VSymIter(v, elem_ty(E, v)))
        elif isinstance(v, VColl):
            yield Outcome(st, v.it)
        elif isinstance(v, VMap) and v.base is None and len(v.ups) <= 1 and all(p for _, p, _ in v.ups):
            yield Outcome(st, VIter([map_entry(E, st, x, y, 'k' if v.vty == '()' else 'kv', v) for x, _, y in v.ups]))
        elif isinstance(v, VMap) or (is_term(v) and re.match(r'(Hash|BTree)(Map|Set)<', v.sort().name())):
            yield Outcome(st, as_iter(E, st, v))
        elif is_term(v) and E.nty(dty)[0] == 'adt' and 'Iter' in E.nty(dty)[1]:
            yield Outcome(st, VOpqIter(v))
        elif is_term(v) and v.sort().name().startswith('AstChildren<'):
            yield Outcome(st, VSymIter(v, v.sort().name()[12:-1]))
        elif is_term(v):
            yield Outcome(st, v)
        else:
            raise ToolLimit('into_iter over ' + E.vname(v))

    @tmodel('<_ as Iterator>::next')
    def it_next(E, st, func, args, dty):
        r = args[0]
        v = E.read_ref(st, r) if isinstance(r, VRef) else r
        if isinstance(v, VIter):
            if not v.items:
                yield Outcome(st, mk(E, dty, 'None'))
            else:
                if isinstance(r, VRef):
                    E.write_ref(st, r, (), VIter(v.items[1:]))
                yield Outcome(st, mk(E, dty, 'Some', v.items[0]))
            return
        if is_term(v) or isinstance(v, VOpqIter) and not v.stages:
            # an iterator of an external type, advanced here: a sequence that depends on how it was obtained only
            t = v if is_term(v) else v.t
            it = item_name(E, E.nty(dty)[2][0])
            if it is not None:
                E.externs['::'.join(map(str, def_key(func)))] = 1
                v = VSymIter(t, it)
        if isinstance(v, VSymIter) and not v.stages and v.started >= 0:
            n = E.seq_len(st, v.src)
            k = v.started
            a = E.branch(st, n > k)
            if a is not None:
                if isinstance(r, VRef):
                    E.write_ref(a, r, (), VSymIter(v.src, v.ety, v.stages, k + 1))
                yield Outcome(a, mk(E, dty, 'Some', E.symval(a, v.ety, 'at', [v.src, z3.IntVal(k)])))
            b = E.branch(st, n <= k)
            if b is not None:
                yield Outcome(b, mk(E, dty, 'None'))
            return
        if isinstance(v, VSymIter) and not v.stages and v.pos is not None:
            n = E.seq_len(st, v.src)
            a = E.branch(st, v.pos < n)
            if a is not None:
                if isinstance(r, VRef):
                    E.write_ref(a, r, (), VSymIter(v.src, v.ety, (), -1, v.pos + 1))
                x = E.symval(a, v.ety, 'at', [v.src, v.pos])
                a.ghost['item'], a.ghost['idx'] = x, v.pos
                a.ghost['its'] = a.ghost.get('its', ()) + ((v, x, x, v.pos),)
                yield Outcome(a, mk(E, dty, 'Some', x))
            b = E.branch(st, v.pos >= n)
            if b is not None:
                yield Outcome(b, mk(E, dty, 'None'))
            return
        if isinstance(v, (VSymIter, VSetIter)):
            b = st.fork()
            first = None
            if isinstance(v, VSymIter) and not v.started and all(k == 'map' for k, _ in v.stages):
                b.assume(E.seq_len(b, v.src) == 0)
                b = b if E.feasible(b) else None
            elif isinstance(v, VSymIter) and not v.started and v.pos is None \
                    and all(q[0] in ('map', 'filter', 'filter_map') for q in v.stages):
                # the first element that passes: nothing before it does, and when there is none, nothing does
                j = z3.Int(f'j!{next_id()}')
                try:
                    first = (j, elem_formula(E, b, v, j, None, 'any'))
                    b.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < E.seq_len(b, v.src)), z3.Not(first[1]))))
                    b = b if E.feasible(b) else None
                except ToolLimit:
                    first = None
            if b is not None:
                yield Outcome(b, mk(E, dty, 'None'))
            for w in iter_parts(E, st, v):
                if isinstance(w, VIter):
                    items = [(st.fork(), y, True, y) for y in w.items]
                else:
                    items = iter_elem(E, st, w)
                for s, x, kept, y in items:
                    if kept:
                        if first is not None and isinstance(w, VSymIter) and w is v:
                            s.assume(z3.ForAll([first[0]], z3.Implies(
                                z3.And(first[0] >= 0, first[0] < s.ghost['idx']), z3.Not(first[1]))))
                        if isinstance(r, VRef) and isinstance(v, VSymIter):
                            E.write_ref(s, r, (), VSymIter(v.src, v.ety, v.stages, -1))
                        s.ghost['item'] = x
                        s.ghost['its'] = s.ghost.get('its', ()) + ((w, x, y, s.ghost.get('idx')),)
                        yield Outcome(s, mk(E, dty, 'Some', y))
            return
        if isinstance(v, VOpqIter) or is_term(v):
            t = v.t if isinstance(v, VOpqIter) else v
            n = E.nty(dty)
            st.ghost['opq'] = st.ghost.get('opq', 0) + 1
            E.externs['::'.join(map(str, def_key(func)))] = 1
            s2 = st.fork()
            yield Outcome(st, mk(E, dty, 'None'))
            yield Outcome(s2, mk(E, dty, 'Some', E.fresh(s2, n[2][0], 'item')))
            return
        raise ToolLimit('next on ' + type(v).__name__)

    @tmodel('<_ as DoubleEndedIterator>::next_back', '<_ as Iterator>::last')
    def it_last(E, st, func, args, dty):
        r = args[0]
        v = deref(E, st, r)
        if isinstance(v, VIter):
            if not v.items:
                yield Outcome(st, mk(E, dty, 'None'))
            else:
                if isinstance(r, VRef):
                    E.write_ref(st, r, (), VIter(v.items[:-1]))
                yield Outcome(st, mk(E, dty, 'Some', v.items[-1]))
            return
        if is_term(v) or isinstance(v, VOpqIter) and not v.stages:
            t = v if is_term(v) else v.t
            it = item_name(E, E.nty(dty)[2][0])
            if it is not None:
                E.externs['::'.join(map(str, def_key(func)))] = 1
                v = VSymIter(t, it)
        if isinstance(v, VSymIter) and v.started == 0 and all(k == 'map' for k, _ in v.stages):
            n = E.seq_len(st, v.src)
            a = E.branch(st, n > 0)
            if a is not None:
                if isinstance(r, VRef):
                    E.write_ref(a, r, (), UNINIT)
                outs = [Outcome(a, E.symval(a, v.ety, 'at', [v.src, n - 1]))]
                for _, g in v.stages:
                    outs = [o2 for o in outs for o2 in ([o] if o.panic else E.call_value(o.st, g, [o.val], None))]
                for o in outs:
                    yield o if o.panic else Outcome(o.st, mk(E, dty, 'Some', o.val))
            b = E.branch(st, n == 0)
            if b is not None:
                yield Outcome(b, mk(E, dty, 'None'))
            return
        if isinstance(v, VSymIter):
            # some element that passes the stages, which one is left open
            E.externs['weak:' + '::'.join(map(str, def_key(func)))] = 1
            b = st.fork()
            yield Outcome(b, mk(E, dty, 'None'))
            for s, x, kept, y in iter_elem(E, st, v):
                if kept:
                    if isinstance(r, VRef):
                        E.write_ref(s, r, (), UNINIT)
                    yield Outcome(s, mk(E, dty, 'Some', y))
            return
        raise ToolLimit('next_back on ' + type(v).__name__)

    @model('Vec::pop')
    def vec_pop(E, st, func, args, dty):
        r = args[0]
        v = E.read_ref(st, r)
        if isinstance(v, VSeq):
            if not v.items:
                yield Outcome(st, mk(E, dty, 'None'))
            else:
                E.write_ref(st, r, (), VSeq(v.items[:-1], v.ety))
                yield Outcome(st, mk(E, dty, 'Some', v.items[-1]))
            return
        if is_term(v):
            n = E.seq_len(st, v)
            a = E.branch(st, n > 0)
            if a is not None:
                E.write_ref(a, r, (), UNINIT)
                yield Outcome(a, mk(E, dty, 'Some', E.symval(a, inner_ty(E, dty), 'at', [v, n - 1])))
            b = E.branch(st, n == 0)
            if b is not None:
                yield Outcome(b, mk(E, dty, 'None'))
            return
        raise ToolLimit('pop')

    @tmodel('<_ as Iterator>::map', '<_ as Iterator>::filter', '<_ as Iterator>::filter_map', '<_ as Iterator>::rev',
            '<_ as Iterator>::flat_map', '<_ as Iterator>::cloned', '<_ as Iterator>::copied', '<_ as Iterator>::chain',
            '<_ as Iterator>::enumerate', '<_ as Iterator>::skip', '<_ as Iterator>::take', '<_ as Iterator>::take_while',
            '<_ as Iterator>::skip_while', '<_ as Iterator>::flatten', '<_ as Iterator>::inspect')
    def it_adapt(E, st, func, args, dty):
        m = def_key(func)[-1]
        v = deref(E, st, args[0])
        if isinstance(v, VIter):
            yield from concrete_adapt(E, st, m, v, args, func)
            return
        if isinstance(v, VSymIter):
            if m in ('cloned', 'copied'):
                yield Outcome(st, v)
                return
            if m in ('map', 'filter', 'filter_map', 'flat_map'):
                yield Outcome(st, VSymIter(v.src, v.ety, v.stages + ((m, args[1]),), v.started))
                return
            if m == 'flatten':
                yield Outcome(st, VSymIter(v.src, v.ety, v.stages + (('flat_map', lambda E, s, args: [Outcome(s, args[0])]),), v.started))
                return
            if m in ('enumerate', 'rev', 'chain', 'skip', 'take', 'take_while', 'skip_while'):
                if m == 'skip' and v.stages and k_int(args[1]) == 1 and v.started == 0 and v.pos is None and all(q[0] in ('map', 'filter', 'filter_map') for q in v.stages):
                    yield Outcome(st, VSymIter(v.src, v.ety, v.stages + (('tail1', None),), 0))
                    return
                a1 = args[1] if len(args) > 1 else 'from the start' if m == 'enumerate' and v.started == 0 and v.pos is None else None
                yield Outcome(st, VSymIter(v.src, v.ety, v.stages + ((m, a1),), v.started))
                return
        if isinstance(v, VSetIter):
            if m in ('cloned', 'copied'):
                yield Outcome(st, v)
                return
            yield Outcome(st, VSetIter(v.map, v.kind, v.stages + ((m, args[1] if len(args) > 1 else None),)))
            return
        if is_term(v) or isinstance(v, VOpqIter):
            r = v if isinstance(v, VOpqIter) else VOpqIter(v)
            if m in ('cloned', 'copied'):
                yield Outcome(st, r)
                return
            if not r.stages and len(args) > 1:
                it = stage_item(E, m, args[1])
                if it is not None:
                    yield from it_adapt(E, st, func, [VSymIter(r.t, it)] + list(args[1:]), dty)
                    return
            yield Outcome(st, VOpqIter(r.t, r.stages + ((m, args[1] if len(args) > 1 else None),)))
            return
        raise ToolLimit('adaptor ' + m + ' on ' + type(v).__name__)

    def concrete_adapt(E, st, m, v, args, func):
        if m in ('cloned', 'copied'):
            yield Outcome(st, v)
        elif m == 'rev':
            yield Outcome(st, VIter(v.items[::-1]))
        elif m == 'enumerate':
            yield Outcome(st, VIter([VAdt('(usize,_)', None, {0: z3.IntVal(i), 1: x}) for i, x in enumerate(v.items)]))
        elif m == 'chain':
            w = deref(E, st, args[1])
            if isinstance(w, VSeq):
                w = VIter(w.items)
            if isinstance(w, VAdt) and w.ty.startswith('Option'):
                w = VIter([w.fields[0]] if w.variant == 'Some' else [])
            if is_term(w) and w.sort().name().startswith('Option<'):
                for s, p in E.option_cases(st, w):
                    yield Outcome(s, VIter(v.items + ([] if p is None else [p[0]])))
                return
            if isinstance(w, VSymIter) and not w.stages and w.pos is None and 0 < w.started == len(v.items) and all(
                    E.term(st, x).eq(E.term(st, E.symval(st, w.ety, 'at', [w.src, z3.IntVal(i)]))) for i, x in enumerate(v.items)):
                # what was taken from the front is put back
                yield Outcome(st, VSymIter(w.src, w.ety))
                return
            if isinstance(w, VSymIter) and v.items:
                # the known items as a sequence, then the others
                t = E.term(st, VSeq(v.items, None))
                yield Outcome(st, VSymIter(t, elem_ty(E, t), (('chain', w),)))
                return
            if not isinstance(w, VIter):
                raise ToolLimit('chain of ' + type(w).__name__)
            yield Outcome(st, VIter(v.items + w.items))
        elif m in ('skip', 'take'):
            n = k_int(args[1])
            if n is None:
                raise ToolLimit('symbolic skip/take')
            yield Outcome(st, VIter(v.items[n:] if m == 'skip' else v.items[:n]))
        elif m in ('map', 'filter', 'filter_map', 'flat_map', 'take_while', 'skip_while'):
            # eager evaluation; assumed equivalent because the closures are pure on the paths explored
            states = [(st, [], True)]
            f = args[1]
            if not isinstance(f, VRef):
                pass
            for x in v.items:
                nstates = []
                for s, acc, live in states:
                    if m == 'take_while' and not live:
                        nstates.append((s, acc, live))
                        continue
                    ret = None
                    if m in ('filter', 'take_while', 'skip_while'):
                        ret = 'bool'
                    elif isinstance(f, VFn):
                        ret = None
                    for o in E.call_value(s, f, [x], ret):
                        if o.panic:
                            yield o
                            continue
                        if m == 'map':
                            nstates.append((o.st, acc + [o.val], live))
                        elif m == 'filter':
                            a = E.branch(o.st, o.val)
                            if a is not None:
                                nstates.append((a, acc + [x], live))
                            b = E.branch(o.st, z3.Not(o.val))
                            if b is not None:
                                nstates.append((b, acc, live))
                        elif m == 'take_while':
                            a = E.branch(o.st, o.val)
                            if a is not None:
                                nstates.append((a, acc + [x], True))
                            b = E.branch(o.st, z3.Not(o.val))
                            if b is not None:
                                nstates.append((b, acc, False))
                        elif m == 'filter_map':
                            for s2, p in E.option_cases(o.st, o.val):
                                nstates.append((s2, acc + ([] if p is None else [p[0]]), live))
                        elif m == 'flat_map':
                            w = o.val
                            w = deref(E, o.st, w)
                            if isinstance(w, (VSeq, VIter)):
                                nstates.append((o.st, acc + list(w.items), live))
                            elif isinstance(w, VAdt) and w.ty.startswith('Option') or is_term(w) and w.sort().name().startswith('Option<'):
                                for s2, p in E.option_cases(o.st, w):
                                    nstates.append((s2, acc + ([] if p is None else [p[0]]), live))
                            else:
                                raise ToolLimit('flat_map result')
                        else:
                            raise ToolLimit(m)
                states = nstates
            for s, acc, _ in states:
                yield Outcome(s, VIter(acc))
        elif m == 'flatten':
            states = [(st, [])]
            for x in v.items:
                ns = []
                for s, acc in states:
                    w = deref(E, s, x)
                    if isinstance(w, (VSeq, VIter)):
                        ns.append((s, acc + list(w.items)))
                    elif isinstance(w, VAdt) and w.ty.startswith('Option') or is_term(w) and w.sort().name().startswith('Option<'):
                        for s2, p in E.option_cases(s, w):
                            ns.append((s2, acc + ([] if p is None else [p[0]])))
                    else:
                        raise ToolLimit('flatten of ' + type(w).__name__)
                states = ns
            for s, acc in states:
                yield Outcome(s, VIter(acc))
        else:
            raise ToolLimit('adaptor ' + m)

    @tmodel('<_ as Iterator>::collect')
    def it_collect(E, st, func, args, dty):
        v = deref(E, st, args[0])
        n = E.nty(dty)
        if isinstance(v, VIter):
            if n[0] == 'adt' and n[1] == 'Vec':
                yield Outcome(st, VSeq(v.items, E.tname(n[2][0])))
                return
            if n[0] == 'adt' and n[1] in ('HashSet', 'BTreeSet'):
                yield Outcome(st, VMap(None, E.tname(n[2][0]), '()', [(x, True, UNIT) for x in v.items]))
                return
            if n == ('prim', 'str'):
                yield Outcome(st, E.cat(v.items))
                return
        if is_term(v):
            v = VOpqIter(v)
        if isinstance(v, (VSymIter, VSetIter, VOpqIter)):
            if n[0] == 'adt' and n[1] in ('Vec', 'HashSet', 'BTreeSet'):
                yield Outcome(st, VColl(v, n))
            else:
                t = E.term(st, v)
                yield Outcome(st, E.symval(st, n, 'collect:' + E.tname(n), [t]))
            return
        raise ToolLimit('collect of ' + type(v).__name__ + ' into ' + E.tname(n))

    @tmodel('<_ as Iterator>::any', '<_ as Iterator>::all')
    def it_any(E, st, func, args, dty):
        m = def_key(func)[-1]
        v = deref(E, st, args[0])
        if isinstance(v, VIter):
            states = [st]
            for x in v.items:
                ns = []
                for s in states:
                    for o in E.call_value(s, args[1], [x], 'bool'):
                        if o.panic:
                            yield o
                            continue
                        hit = o.val if m == 'any' else z3.Not(o.val)
                        a = E.branch(o.st, hit)
                        if a is not None:
                            yield Outcome(a, z3.BoolVal(m == 'any'))
                        b = E.branch(o.st, z3.Not(hit))
                        if b is not None:
                            ns.append(b)
                states = ns
            for s in states:
                yield Outcome(s, z3.BoolVal(m != 'any'))
            return
        if E.any_hook is not None:
            r = E.any_hook(st, v, args[1], m)
            if r is not None:
                yield from r
                return
        if isinstance(v, VSymIter):
            yield from quant(E, st, v, args[1], m)
            return
        if is_term(v) or isinstance(v, (VOpqIter, VSetIter)):
            t = E.term(st, v)
            yield Outcome(st, E.symval(st, 'bool', 'ext:iter_' + m, [t, E.term(st, args[1])]))
            return
        raise ToolLimit(m)

    def elem_formula(E, st, v, i, f, kind):
        """formula: the element at index i passes all filter stages of v and satisfies f"""
        s0_ = st.fork()
        npc = len(s0_.pc)
        x = E.symval(s0_, v.ety, 'at', [v.src, i])
        states = [(s0_, x, z3.BoolVal(True))]
        bound = z3.is_const(i) and i.decl().name().startswith('j!')
        if bound:
            E.bound.append(i)
        try:
            return elem_formula2(E, v, f, kind, states, npc, i)
        finally:
            if bound:
                E.bound.pop()

    def elem_formula2(E, v, f, kind, states, npc, i):
        def pcs(s):
            r = []
            for p in s.pc[npc:]:
                if E.bound and p.get_id() in E.facts:
                    q = z3.ForAll(list(E.bound), p)
                    if not any(q.eq(x) for x in E.qax):
                        E.qax.append(q)
                else:
                    r.append(p)
            return r
        for si, (k, g) in enumerate(v.stages):
            ns = []
            for s, y, c in states:
                if k == 'enumerate' and isinstance(v, VSymIter) and all(q[0] == 'map' for q in v.stages[:si]) and (not v.started or g == 'from the start'):
                    ns.append((s, VAdt('(usize,_)', None, {0: i, 1: y}), c))
                    continue
                if k in ('enumerate', 'tail1'):
                    raise ToolLimit('stage ' + k)
                for o in E.call_value(s, g, [y], 'bool' if k == 'filter' else None):
                    if o.panic:
                        raise ToolLimit('panic inside quantified closure')
                    if k == 'map':
                        ns.append((o.st, o.val, c))
                    elif k == 'filter':
                        ns.append((o.st, y, z3.And(c, o.val)))
                    elif k == 'filter_map':
                        for s2, p in E.option_cases(o.st, o.val):
                            if p is not None:
                                ns.append((s2, p[0], c))
                    else:
                        raise ToolLimit('stage ' + k)
            states = ns
        disj = []
        for s, y, c in states:
            if f is None:
                disj.append(z3.And(*pcs(s), c))
                continue
            for o in E.call_value(s, f, [y], 'bool'):
                if o.panic:
                    raise ToolLimit('panic inside quantified closure')
                disj.append(z3.And(*pcs(o.st), c, o.val if kind == 'any' else z3.Not(o.val)))
        return z3.Or(disj) if disj else z3.BoolVal(False)
    E.elem_formula = elem_formula

    def quant(E, st, v, f, m):
        """any/all over a symbolic sequence: exists / forall"""
        n = E.seq_len(st, v.src)
        i = E.uf(f'w!{len(st.pc)}:{m}', [v.src] + ([E.term(st, f)] if f is not None else []), z3.IntSort())
        body_w = elem_formula(E, st, v, i, f, 'any' if m == 'any' else 'all')
        hit = st.fork()
        hit.assume(z3.And(i >= 0, i < n))
        hit.assume(body_w)
        if E.feasible(hit):
            yield Outcome(hit, z3.BoolVal(m == 'any'))
        j = z3.Int(f'j!{len(st.pc)}')
        body_j = elem_formula(E, st, v, j, f, 'any' if m == 'any' else 'all')
        miss = st.fork()
        miss.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(body_j))))
        if E.feasible(miss):
            yield Outcome(miss, z3.BoolVal(m != 'any'))

    def coll_has(E, st, v, x):
        """membership of x in a collection, as a formula"""
        v = deref(E, st, v)
        if isinstance(v, (VSeq, VIter)):
            return z3.Or([E.eq_formula(E, st, y, x) for y in v.items] or [z3.BoolVal(False)])
        if isinstance(v, VMap) or (is_term(v) and re.match(r'(Hash|BTree)(Map|Set)<', v.sort().name())):
            return E.map_has(st, v, x)
        if isinstance(v, VColl):
            v = v.it
        if is_term(v) and v.sort().name().startswith('Vec<'):
            v = VSymIter(v, elem_ty(E, v))
        if isinstance(v, VSymIter):
            j = z3.Int(f'j!{next_id()}')
            f = lambda E, s, args: [Outcome(s, E.term(s, deref(E, s, args[0])) == E.term(s, x))]
            b = elem_formula(E, st, v, j, f, 'any')
            return z3.Exists([j], z3.And(j >= 0, j < E.seq_len(st, v.src), b))
        raise ToolLimit('membership in ' + type(v).__name__)
    E.coll_has = coll_has

    @model('HashSet::intersection', 'HashSet::difference', 'BTreeSet::intersection', 'BTreeSet::difference')
    def set_inter(E, st, func, args, dty):
        a, b = deref(E, st, args[0]), deref(E, st, args[1])
        inter = def_key(func)[-1] == 'intersection'
        if not isinstance(a, (VSeq, VIter)) and inter and isinstance(b, (VSeq, VIter)):
            a, b = b, a
        if not isinstance(a, (VSeq, VIter)):
            return NotImplemented
        states = [(st, [])]
        for x in a.items:
            ns = []
            for s, acc in states:
                c = coll_has(E, s, b, x)
                p = E.branch(s, c if inter else z3.Not(c))
                if p is not None:
                    ns.append((p, acc + [x]))
                q = E.branch(s, z3.Not(c) if inter else c)
                if q is not None:
                    ns.append((q, acc))
            states = ns
        return [Outcome(s, VIter(acc)) for s, acc in states]

    @tmodel('<_ as Iterator>::find', '<_ as Iterator>::find_map', '<_ as Iterator>::position')
    def it_find(E, st, func, args, dty):
        m = def_key(func)[-1]
        v = deref(E, st, args[0])
        if is_term(v) and v.sort().name().startswith('AstChildren<'):
            v = VSymIter(v, v.sort().name()[12:-1])
        if isinstance(v, VIter):
            states = [st]
            for idx, x in enumerate(v.items):
                ns = []
                for s in states:
                    for o in E.call_value(s, args[1], [x], 'bool' if m != 'find_map' else dty):
                        if o.panic:
                            yield o
                            continue
                        if m == 'find_map':
                            for s2, p in E.option_cases(o.st, o.val):
                                if p is None:
                                    ns.append(s2)
                                else:
                                    yield Outcome(s2, mk(E, dty, 'Some', p[0]))
                            continue
                        a = E.branch(o.st, o.val)
                        if a is not None:
                            yield Outcome(a, mk(E, dty, 'Some', x if m == 'find' else z3.IntVal(idx)))
                        b = E.branch(o.st, z3.Not(o.val))
                        if b is not None:
                            ns.append(b)
                states = ns
            for s in states:
                yield Outcome(s, mk(E, dty, 'None'))
            return
        if isinstance(v, VSymIter) and m == 'find' and not v.stages:
            n = E.seq_len(st, v.src)
            ft = E.term(st, args[1])
            i = E.uf(f'find!{len(st.pc)}', [v.src, ft], z3.IntSort())
            hit = st.fork()
            at_i = elem_formula(E, st, v, i, args[1], 'any')
            j = z3.Int(f'j!{next_id()}' if E.bound else f'j!{len(st.pc)}')
            bj = elem_formula(E, st, v, j, args[1], 'any')
            facts = z3.And(i >= 0, i < n, at_i, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.Not(bj))))
            if E.bound:
                # under a quantifier: the index is defined once and for all, the path only says that there is one
                ex = z3.Exists([j], z3.And(j >= 0, j < n, bj))
                E.qax.append(z3.ForAll(list(E.bound), z3.Implies(ex, facts)))
                hit.assume(ex)
            else:
                hit.assume(facts)
            if E.feasible(hit):
                yield Outcome(hit, mk(E, dty, 'Some', E.symval(hit, v.ety, 'at', [v.src, i])))
            miss = st.fork()
            miss.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(bj))))
            if E.feasible(miss):
                yield Outcome(miss, mk(E, dty, 'None'))
            return
        if isinstance(v, (VSymIter, VSetIter)):
            # some element satisfies the predicate / none does (order left unspecified unless simple)
            miss = st.fork()
            first = None
            plain = isinstance(v, VSymIter) and not v.started and v.pos is None and all(q[0] in ('map', 'enumerate') for q in v.stages)
            if isinstance(v, VSymIter) and (m in ('find_map', 'find') or plain) and not v.started:
                # nothing before the hit satisfies the predicate
                j = z3.Int(f'j!{next_id()}')
                w = VSymIter(v.src, v.ety, v.stages + (('filter_map' if m == 'find_map' else 'filter', args[1]),))
                try:
                    first = (j, elem_formula(E, miss, w, j, None, 'any'))
                except ToolLimit:
                    pass
            for s, x, kept, y in iter_elem(E, st, v):
                if not kept:
                    continue
                if first is not None:
                    s.assume(z3.ForAll([first[0]], z3.Implies(z3.And(first[0] >= 0, first[0] < s.ghost['idx']), z3.Not(first[1]))))
                for o in E.call_value(s, args[1], [y], 'bool' if m != 'find_map' else dty):
                    if o.panic:
                        yield o
                        continue
                    if m == 'find_map':
                        for s2, p in E.option_cases(o.st, o.val):
                            if p is not None:
                                s2.ghost['item'] = x
                                yield Outcome(s2, mk(E, dty, 'Some', p[0]))
                    elif m == 'find':
                        a = E.branch(o.st, o.val)
                        if a is not None:
                            a.ghost['item'] = x
                            yield Outcome(a, mk(E, dty, 'Some', y))
                    elif plain:
                        a = E.branch(o.st, o.val)
                        if a is not None:
                            a.ghost['item'] = x
                            yield Outcome(a, mk(E, dty, 'Some', a.ghost['idx']))
                    else:
                        raise ToolLimit('position')
            if first is not None:
                n = E.seq_len(miss, v.src)
                miss.assume(z3.ForAll([first[0]], z3.Implies(z3.And(first[0] >= 0, first[0] < n), z3.Not(first[1]))))
            if E.feasible(miss):
                yield Outcome(miss, mk(E, dty, 'None'))
            return
        if is_term(v) or isinstance(v, VOpqIter):
            t = E.term(st, v)
            yield Outcome(st, E.symval(st, dty, 'ext:iter_' + m, [t, E.term(st, args[1])]))
            return
        raise ToolLimit(m + ' on ' + type(v).__name__)

    # ------------------------------------------------------------ closures called through Fn traits
    @tmodel('<_ as Fn>::call', '<_ as FnMut>::call_mut', '<_ as FnOnce>::call_once')
    def fn_call(E, st, func, args, dty):
        tup = args[1]
        vals = [tup.fields[i] for i in sorted(tup.fields)] if isinstance(tup, VAdt) else [tup]
        yield from E.call_value(st, args[0], vals, dty)
    for n in ('Fn', 'FnMut', 'FnOnce'):
        pass

    # ------------------------------------------------------------ panics
    def panic(E, st, func, args, dty):
        yield Outcome(st, None, panic='::'.join(map(str, def_key(func)[-2:])))
    for n in ['panicking::panic', 'panicking::panic_fmt', 'panicking::panic_display', 'panicking::unreachable_display',
              'rt::begin_panic', 'panicking::assert_failed', 'option::expect_failed', 'result::unwrap_failed',
              'rt::panic_fmt', 'panicking::panic_explicit', 'panicking::panic_str_2015']:
        M[n] = panic

    # ------------------------------------------------------------ allocation
    @model('alloc::exchange_malloc')
    def malloc(E, st, func, args, dty):
        yield Outcome(st, UNIT)

    @tmodel('<_ as Drop>::drop')
    def drop_(E, st, func, args, dty):
        yield Outcome(st, UNIT)

    # ------------------------------------------------------------ plain constructors of dependencies
    @model('lsp_types::Position::new', 'Position::new')
    def position_new(E, st, func, args, dty):
        yield Outcome(st, VAdt('Position', None, {0: args[0], 1: args[1]}))

    @model('lsp_types::Range::new')
    def range_new(E, st, func, args, dty):
        yield Outcome(st, VAdt('Range', None, {0: args[0], 1: args[1]}))

    @model('lsp_types::TextEdit::new')
    def textedit_new(E, st, func, args, dty):
        yield Outcome(st, VAdt('TextEdit', None, {0: args[0], 1: args[1]}))

    # ------------------------------------------------------------ text-size: TextSize is a u32, TextRange a pair start <= end
    U32 = (1 << 32) - 1
    def tr_parts(E, st, v):
        v = deref(E, st, v)
        if isinstance(v, VAdt) and 0 in v.fields and 1 in v.fields:
            return v.fields[0], v.fields[1]
        t = E.term(st, v)
        a, b = (E.uf(f'fld:TextRange:None:{i}', [t], z3.IntSort()) for i in (0, 1))
        st.assume(z3.And(a >= 0, a <= b, b <= U32))
        return a, b
    E.tr_parts = tr_parts
    E.mk_range = lambda E, st, a, b: mk_tr(deref(E, st, a), deref(E, st, b))
    def mk_tr(a, b):
        return VAdt('TextRange', None, {0: a, 1: b})

    @model('num::checked_add', 'num::checked_sub', 'num::checked_mul', 'num::saturating_add', 'num::saturating_sub', 'num::saturating_mul',
           'num::wrapping_add', 'num::wrapping_sub')
    def num_op(E, st, func, args, dty):
        m = re.search(r'<impl ([a-z0-9]+)>', func)
        n = E.nty(dty)
        ty = m.group(1) if m else (n[2][0][1] if n[0] == 'adt' else n[1])
        if ty not in INT_RANGES:
            raise ToolLimit('integer method ' + func)
        lo, hi = INT_RANGES[ty]
        a, b = (E.term(st, deref(E, st, x)) for x in args[:2])
        kind, op = def_key(func)[-1].split('_')
        r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
        if kind == 'checked':
            ok = z3.And(r >= lo, r <= hi)
            x = E.branch(st, ok)
            if x is not None:
                yield Outcome(x, mk(E, dty, 'Some', r))
            y = E.branch(st, z3.Not(ok))
            if y is not None:
                yield Outcome(y, mk(E, dty, 'None'))
        elif kind == 'saturating':
            yield Outcome(st, z3.If(r < lo, lo, z3.If(r > hi, hi, r)))
        else:
            w = hi - lo + 1
            yield Outcome(st, z3.If(r < lo, r + w, z3.If(r > hi, r - w, r)))

    @model('TextRange::start', 'TextRange::end', 'TextRange::len', 'TextRange::is_empty')
    def tr_get(E, st, func, args, dty):
        a, b = tr_parts(E, st, args[0])
        m = def_key(func)[-1]
        yield Outcome(st, {'start': a, 'end': b, 'len': b - a, 'is_empty': a == b}[m])

    @model('TextRange::new')
    def tr_new(E, st, func, args, dty):
        a, b = deref(E, st, args[0]), deref(E, st, args[1])
        bad = E.branch(st, a > b)
        if bad is not None:
            yield Outcome(bad, None, panic='TextRange::new(start > end)')
        ok = E.branch(st, a <= b)
        if ok is not None:
            yield Outcome(ok, mk_tr(a, b))

    @model('TextRange::empty')
    def tr_empty(E, st, func, args, dty):
        a = deref(E, st, args[0])
        yield Outcome(st, mk_tr(a, a))

    @model('TextRange::up_to')
    def tr_upto(E, st, func, args, dty):
        yield Outcome(st, mk_tr(z3.IntVal(0), deref(E, st, args[0])))

    @model('TextRange::contains', 'TextRange::contains_inclusive', 'TextRange::contains_range')
    def tr_contains(E, st, func, args, dty):
        a, b = tr_parts(E, st, args[0])
        m = def_key(func)[-1]
        if m == 'contains_range':
            c, d = tr_parts(E, st, args[1])
            yield Outcome(st, z3.And(a <= c, d <= b))
        else:
            x = deref(E, st, args[1])
            yield Outcome(st, z3.And(a <= x, x < b if m == 'contains' else x <= b))

    @model('TextRange::intersect')
    def tr_intersect(E, st, func, args, dty):
        a, b = tr_parts(E, st, args[0])
        c, d = tr_parts(E, st, args[1])
        s, e = z3.If(a > c, a, c), z3.If(b < d, b, d)
        x = E.branch(st, e < s)
        if x is not None:
            yield Outcome(x, mk(E, dty, 'None'))
        y = E.branch(st, e >= s)
        if y is not None:
            yield Outcome(y, mk(E, dty, 'Some', mk_tr(s, e)))

    @model('TextRange::cover')
    def tr_cover(E, st, func, args, dty):
        a, b = tr_parts(E, st, args[0])
        c, d = tr_parts(E, st, args[1])
        yield Outcome(st, mk_tr(z3.If(a < c, a, c), z3.If(b > d, b, d)))

    @model('TextSize::new', '<u32 as From<TextSize>>::from', '<TextSize as From<u32>>::from')
    def ts_new(E, st, func, args, dty):
        yield Outcome(st, deref(E, st, args[0]))

    @model('TextSize::of')
    def ts_of(E, st, func, args, dty):
        v = deref(E, st, args[0])
        if is_term(v) and v.sort() == z3.StringSort():
            st.assume(z3.Length(v) <= U32)
            yield Outcome(st, z3.Length(v))
        elif is_term(v) and v.sort() == z3.IntSort():
            yield Outcome(st, z3.If(v < 0x80, z3.IntVal(1), z3.If(v < 0x800, z3.IntVal(2), z3.If(v < 0x10000, z3.IntVal(3), z3.IntVal(4)))))
        else:
            raise ToolLimit('TextSize::of')

    @tmodel('<TextSize as Add>::add', '<TextSize as Sub>::sub')
    def ts_add(E, st, func, args, dty):
        a, b = deref(E, st, args[0]), deref(E, st, args[1])
        r = a + b if def_key(func)[-1] == 'add' else a - b
        bad = E.branch(st, z3.Not(z3.And(r >= 0, r <= U32)))
        if bad is not None:
            yield Outcome(bad, None, panic='TextSize arithmetic overflow')
        ok = E.branch(st, z3.And(r >= 0, r <= U32))
        if ok is not None:
            yield Outcome(ok, r)

    @tmodel('<TextRange as Add>::add', '<TextRange as Sub>::sub')
    def tr_add(E, st, func, args, dty):
        a, b = tr_parts(E, st, args[0])
        x = deref(E, st, args[1])
        sg = 1 if def_key(func)[-1] == 'add' else -1
        r = z3.And(a + sg * x >= 0, b + sg * x <= U32)
        bad = E.branch(st, z3.Not(r))
        if bad is not None:
            yield Outcome(bad, None, panic='TextRange +/-offset overflowed')
        ok = E.branch(st, r)
        if ok is not None:
            yield Outcome(ok, mk_tr(a + sg * x, b + sg * x))

    @tmodel('<TextSize as AddAssign>::add_assign')
    def ts_add_assign(E, st, func, args, dty):
        for o in ts_add(E, st, "<TextSize as Add>::add", [E.read_ref(st, args[0]), args[1]], dty):
            if not o.panic:
                E.write_ref(o.st, args[0], (), o.val)
                yield Outcome(o.st, UNIT)
            else:
                yield o

    # ------------------------------------------------------------ str slicing (byte strings; UTF-8 boundaries)
    def boundary(s, i):
        c = z3.StrToCode(z3.SubString(s, i, 1))
        return z3.Or(i == 0, i == z3.Length(s), z3.And(i > 0, i < z3.Length(s), z3.Or(c < 0x80, c >= 0xC0)))
    E.boundary = boundary

    def range_bounds(E, st, v, s):
        v = deref(E, st, v)
        if isinstance(v, VAdt):
            n = v.ty.split('<')[0]
            f = v.fields
            L = z3.Length(s)
            if n == 'Range':
                return f[0], f[1]
            if n == 'RangeTo':
                return z3.IntVal(0), f[0]
            if n == 'RangeFrom':
                return f[0], L
            if n == 'RangeFull':
                return z3.IntVal(0), L
            if n == 'TextRange':
                return f[0], f[1]
        if is_term(v) and v.sort().name() == 'TextRange':
            return tr_parts(E, st, v)
        if is_term(v) and v.sort().name().startswith('Range<'):
            a, b = (E.symval(st, ('prim', 'usize'), f'fld:{v.sort().name()}:None:{i}', [v]) for i in (0, 1))
            return a, b
        raise ToolLimit('string index by ' + E.vname(v))

    @tmodel('<[T] as Index>::index', '<Vec as Index>::index')
    def slice_index(E, st, func, args, dty):
        v, r = deref(E, st, args[0]), deref(E, st, args[1])
        if not (isinstance(r, VAdt) and r.ty.startswith('RangeFrom')):
            raise ToolLimit('slice index ' + E.vname(r))
        k = r.fields[0]
        if isinstance(v, VColl) and isinstance(v.it, VSymIter) and k_int(k) is not None and all(q[0] in ('map', 'filter', 'filter_map') for q in v.it.stages) and not v.it.started and v.it.pos is None:
            n = E.seq_len(st, v)
            bad = E.branch(st, k > n)
            if bad is not None:
                yield Outcome(bad, None, panic='slice index out of range')
            ok = E.branch(st, k <= n)
            if ok is not None:
                yield Outcome(ok, VRef(ok.alloc(VColl(VSymIter(v.it.src, v.it.ety, v.it.stages + (('tail1', None) if k_int(k) == 1 else ('skip', z3.simplify(k)),)), v.ty))))
            return
        if isinstance(v, VSeq):
            i = k_int(k)
            if i is None:
                raise ToolLimit('slice index')
            if i > len(v.items):
                yield Outcome(st, None, panic='slice index out of range')
            else:
                yield Outcome(st, VRef(st.alloc(VSeq(v.items[i:], v.ety))))
            return
        n = E.seq_len(st, v)
        bad = E.branch(st, k > n)
        if bad is not None:
            yield Outcome(bad, None, panic='slice index out of range')
        ok = E.branch(st, k <= n)
        if ok is not None:
            t = E.uf('tail', [v, k], v.sort())
            ety = elem_ty(E, v)
            i = z3.Int('i!tail')
            es = E.sort(E.nty_from_name(ety))
            ok.assume(E.seq_len(ok, t) == n - k)
            ok.assume(z3.ForAll([i], E.uf('at', [t, i], es) == E.uf('at', [v, i + k], es), patterns=[E.uf('at', [t, i], es)]))
            yield Outcome(ok, t)

    @tmodel('<str as Index>::index', '<String as Index>::index')
    def str_index(E, st, func, args, dty):
        s = deref(E, st, args[0])
        a, b = range_bounds(E, st, args[1], s)
        good = z3.And(a >= 0, a <= b, b <= z3.Length(s), boundary(s, a), boundary(s, b))
        bad = E.branch(st, z3.Not(good))
        if bad is not None:
            yield Outcome(bad, None, panic='str slice out of bounds or inside a character')
        ok = E.branch(st, good)
        if ok is not None:
            yield Outcome(ok, z3.SubString(s, a, b - a))

    @model('str::get')
    def str_get(E, st, func, args, dty):
        s = deref(E, st, args[0])
        a, b = range_bounds(E, st, args[1], s)
        good = z3.And(a >= 0, a <= b, b <= z3.Length(s), boundary(s, a), boundary(s, b))
        bad = E.branch(st, z3.Not(good))
        if bad is not None:
            yield Outcome(bad, mk(E, dty, 'None'))
        ok = E.branch(st, good)
        if ok is not None:
            yield Outcome(ok, mk(E, dty, 'Some', z3.SubString(s, a, b - a)))

    @model('str::is_char_boundary')
    def is_cb(E, st, func, args, dty):
        yield Outcome(st, boundary(deref(E, st, args[0]), deref(E, st, args[1])))

    # ------------------------------------------------------------ integer helpers
    @tmodel('<_ as Ord>::min', '<_ as Ord>::max')
    def ord_minmax(E, st, func, args, dty):
        a, b = deref(E, st, args[0]), deref(E, st, args[1])
        if not (is_term(a) and a.sort() == z3.IntSort()):
            raise ToolLimit('min/max')
        yield Outcome(st, z3.If(a <= b, a, b) if def_key(func)[-1] == 'min' else z3.If(a >= b, a, b))

    @model('cmp::min', 'cmp::max')
    def cmp_minmax(E, st, func, args, dty):
        yield from ord_minmax(E, st, func, args, dty)

    # ------------------------------------------------------------ lsp-server / crossbeam
    @model('Sender::send')
    def sender_send(E, st, func, args, dty):
        bad = st.fork()
        bad.ghost['send_failed'] = True
        yield Outcome(bad, mk(E, dty, 'Err', E.fresh(bad, inner_ty(E, dty, 1), 'senderr')))
        st.ghost['sent'] = list(st.ghost.get('sent', [])) + [deref(E, st, args[1])]
        yield Outcome(st, mk(E, dty, 'Ok', UNIT))

    def extract(kind):
        def f(E, st, func, args, dty):
            r = deref(E, st, args[0])
            method = deref(E, st, args[1])
            t = E.term(st, r)
            fs = {n: (i, ty) for i, (n, ty) in enumerate(E.defs.structs[kind])}
            get = lambda s, n: E.get_field(s, r, None, fs[n][0], fs[n][1])
            mm = get(st, 'method') == method
            a = E.branch(st, z3.Not(mm))
            ety = E.tname(inner_ty(E, dty, 1))
            if a is not None:
                yield Outcome(a, mk(E, dty, 'Err', VAdt(ety, 'MethodMismatch', {0: r})))
            b = E.branch(st, mm)
            if b is None:
                return
            params = get(b, 'params')
            bad = b.fork()
            ok = E.uf('decodes:' + E.tname(inner_ty(E, dty, 0)) + E.gtag(func), [E.term(b, params)], z3.BoolSort())
            bad.assume(z3.Not(ok))
            if E.feasible(bad):
                yield Outcome(bad, mk(E, dty, 'Err', VAdt(ety, 'JsonError', {0: get(bad, 'method'), 1: E.fresh(bad, ('adt', 'serde_json::Error', ()), 'jsonerr')})))
            good = b
            good.assume(ok)
            if E.feasible(good):
                okty = inner_ty(E, dty, 0)
                if kind == 'Request':
                    pv = E.symval(good, okty[1][1], 'decoded' + E.gtag(func), [E.term(good, params)])
                    yield Outcome(good, mk(E, dty, 'Ok', VAdt(E.tname(okty), None, {0: get(good, 'id'), 1: pv})))
                else:
                    yield Outcome(good, mk(E, dty, 'Ok', E.symval(good, okty, 'decoded' + E.gtag(func), [E.term(good, params)])))
        return f
    M['lsp_server::Request::extract'] = extract('Request')
    M['lsp_server::Notification::extract'] = extract('Notification')

    # ------------------------------------------------------------ serde_json values built with json!
    @model('serde_json::BTreeMap::new', 'serde_json::BTreeMap::with_capacity')
    def jmap_new(E, st, func, args, dty):
        yield Outcome(st, VMap(None, 'str', 'Value'))

    @model('serde_json::BTreeMap::insert')
    def jmap_insert(E, st, func, args, dty):
        if not isinstance(E.read_ref(st, args[0]), VMap):
            return NotImplemented
        return map_insert(E, st, func, args, dty)

    @model('serde_json::to_value')
    def to_value(E, st, func, args, dty):
        """to_value of text, numbers, booleans, uris and json values cannot fail"""
        v = deref(E, st, args[0])
        if isinstance(v, VAdt) and v.ty == 'Value':
            j = v
        elif is_term(v) and v.sort() == z3.StringSort():
            j = VAdt('Value', 'String', {0: v})
        elif is_term(v) and v.sort() == z3.BoolSort():
            j = VAdt('Value', 'Bool', {0: v})
        elif is_term(v) and v.sort() == z3.IntSort():
            j = VAdt('Value', 'Number', {0: E.symval(st, ('adt', 'Number', ()), 'json_number', [v])})
        elif is_term(v) and v.sort().name() == 'Url':
            j = VAdt('Value', 'String', {0: E.url_str(st, v)})
        elif is_term(v) and v.sort().name() == 'Value':
            j = v
        else:
            return NotImplemented
        return [Outcome(st, mk(E, dty, 'Ok', j))]

    @model('lsp_server::Response::new_ok', 'Response::new_ok')
    def resp_ok(E, st, func, args, dty):
        v = E.symval(st, E.nty('serde_json::Value'), 'to_value', [E.term(st, args[1])])
        yield Outcome(st, VAdt('Response', None, {0: args[0], 1: E.some(v, 'Option<Value>'), 2: E.none('Option<ResponseError>')}))

    @model('lsp_server::Response::new_err', 'Response::new_err')
    def resp_err(E, st, func, args, dty):
        e = VAdt('ResponseError', None, {0: args[1], 1: args[2], 2: E.none('Option<Value>')})
        yield Outcome(st, VAdt('Response', None, {0: args[0], 1: E.none('Option<Value>'), 2: E.some(e, 'Option<ResponseError>')}))

    @model('lsp_server::Request::new', 'lsp_server::Notification::new')
    def msg_new(E, st, func, args, dty):
        v = E.symval(st, E.nty('serde_json::Value'), 'to_value', [E.term(st, args[-1])])
        kind = def_key(func)[-2]
        yield Outcome(st, VAdt(kind, None, {i: x for i, x in enumerate(list(args[:-1]) + [v])}))

    @model('iter::once')
    def iter_once(E, st, func, args, dty):
        yield Outcome(st, VIter([args[0]]))

    @model('iter::empty')
    def iter_empty(E, st, func, args, dty):
        yield Outcome(st, VIter([]))

    @model('str::replace')
    def str_replace(E, st, func, args, dty):
        s, p, r = s0(E, st, args[0]), pat_str(E, st, args[1]), s0(E, st, args[2])
        if p is None:
            raise ToolLimit('string pattern')
        if z3.is_string_value(s) and z3.is_string_value(p) and zpy(p):
            parts = zpy(s).split(zpy(p))
            out = [zstr(parts[0])]
            for x in parts[1:]:
                out += [r, zstr(x)]
            yield Outcome(st, z3.simplify(z3.Concat(*out)) if len(out) > 1 else out[0])
            return
        yield Outcome(st, E.uf('str:replace', [s, p, r], z3.StringSort()))

    @tmodel('<_ as Clone>::clone_from')
    def clone_from(E, st, func, args, dty):
        E.write_ref(st, args[0], (), deref(E, st, args[1]))
        yield Outcome(st, UNIT)

    RANGE = {'u8': (0, 2**8), 'u16': (0, 2**16), 'u32': (0, 2**32), 'u64': (0, 2**64), 'usize': (0, 2**64), 'u128': (0, 2**128),
             'i8': (-2**7, 2**7), 'i16': (-2**15, 2**15), 'i32': (-2**31, 2**31), 'i64': (-2**63, 2**63), 'isize': (-2**63, 2**63)}

    def int_try_from(E, st, func, args, dty):
        k = def_key(func)[0]
        v = deref(E, st, args[0])
        if not (is_term(v) and v.sort() == z3.IntSort()):
            return NotImplemented
        lo, hi = RANGE[k[1]]
        ok = z3.And(v >= lo, v < hi)
        out = []
        a, b = E.branch(st, ok), E.branch(st, z3.Not(ok))
        if a is not None:
            out.append(Outcome(a, mk(E, dty, 'Ok', v)))
        if b is not None:
            out.append(Outcome(b, mk(E, dty, 'Err', E.fresh(b, 'TryFromIntError', 'e'))))
        return out
    for it in RANGE:
        M[f'<{it} as TryFrom>::try_from'] = int_try_from

    import models_toml
    models_toml.register(E)
    import models_path
    models_path.register(E)
    import models_str
    models_str.register(E)
    import models_ord
    models_ord.register(E)
    import models_txt
    models_txt.register(E)
