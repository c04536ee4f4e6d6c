"""P10: attribute values, ids and selectors are the ones ink! computes."""
import z3
import kit
from kit import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['rust-analyzer\'s literals denote what Rust says (ast::IntNumber::value, ast::String::value, token kinds), its trees are functions of the text',
               'integer parsing of a decimal rendering gives the number exactly if it fits', 'blake2::Blake2b<U32> is BLAKE2b-256 (uninterpreted here, checked against an independent implementation in the bounded part)']
IR = 'ir'
A = 'MetaValue::'
S = 'Selector::'
SA = 'SelectorArg::'

def vi(K, en, v):
    return K.E.defs.variant_index(en, v)

def wf(K, st, v):
    """invariant of MetaValue (established by `parse`): a token or an expression that is a literal or a path; elements are not empty"""
    tok, ex = K.fld(st, v, 'token'), K.fld(st, v, 'expr')
    st.assume(z3.Or(K.is_(st, tok, 'Some', 'Option'), K.is_(st, ex, 'Some', 'Option')))
    st.assume(z3.Not(z3.And(K.is_(st, tok, 'Some', 'Option'), K.is_(st, ex, 'Some', 'Option'))))

def tkind(K, s, tok):
    return K.E.symval(s, K.E.nty('SyntaxKind'), 'ext:rowan::api::SyntaxToken::kind', [K.t(s, tok)])

def lit_kind(K, s, lit):
    return K.E.symval(s, K.E.nty('LiteralKind'), 'ext:ra_ap_syntax::ast::expr_ext::kind', [K.t(s, lit)])

@contract(A + 'kind', crate=IR)
def kind(K):
    """`_` and `@` have their token's kind, literals that of their token, paths PATH; never panics on a parsed value"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    wf(K, st, a[0])
    for o in K.run(fn, a, st):
        s = o.st
        tok, ex = K.fld(s, a[0], 'token'), K.fld(s, a[0], 'expr')
        b = K.E.branch(s, K.is_(s, tok, 'Some', 'Option'))
        if b is not None:
            K.ob('token kind', b, K.t(b, o.val) == tkind(K, b, K.payload(b, tok, 'Some')))
        b = K.E.branch(s, K.is_(s, tok, 'None', 'Option'))
        if b is None:
            continue
        e = K.payload(b, ex, 'Some')
        c = K.E.branch(b, K.is_(b, e, 'Literal', 'Expr'))
        if c is not None:
            lt = K.E.symval(c, K.E.nty('SyntaxToken'), 'ext:ra_ap_syntax::ast::expr_ext::token', [K.t(c, K.payload(c, e, 'Literal'))])
            K.ob('literal kind', c, K.t(c, o.val) == tkind(K, c, lt))
        c = K.E.branch(b, K.is_(b, e, 'PathExpr', 'Expr'))
        if c is not None:
            K.ob('path', c, K.t(c, o.val) == vi(K, 'SyntaxKind', 'PATH'))

@contract(A + 'is_wildcard', crate=IR)
def tokens(K):
    """wildcard, complement and boolean values by their kind"""
    K.opaque(A + 'kind')
    for fn, k in ((A + 'is_wildcard', 'UNDERSCORE'), (A + 'is_at_symbol', 'AT')):
        st = State()
        a = K.args(fn, st)
        for o in K.run(fn, a, st):
            kd = K.spec(o.st, A + 'kind', [a[0]], 'SyntaxKind')
            K.ob(k, o.st, K.t(o.st, o.val) == (K.t(o.st, kd) == vi(K, 'SyntaxKind', k)))
    fn = A + 'as_bool'
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        kd = K.t(o.st, K.spec(o.st, A + 'kind', [a[0]], 'SyntaxKind'))
        T, F = vi(K, 'SyntaxKind', 'TRUE_KW'), vi(K, 'SyntaxKind', 'FALSE_KW')
        K.ob('a value exactly for true and false', o.st, K.is_(o.st, o.val, 'Some', 'Option') == z3.Or(kd == T, kd == F))
        b = K.E.branch(o.st, K.is_(o.st, o.val, 'Some', 'Option'))
        if b is not None:
            K.ob('the value', b, K.t(b, K.payload(b, o.val, 'Some')) == (kd == T))

def literal(K, s, v, variant):
    """(condition, token) of a value that is a literal of this kind"""
    ex = K.fld(s, v, 'expr')
    e = K.payload(s, ex, 'Some')
    lk = lit_kind(K, s, K.payload(s, e, 'Literal'))
    return z3.And(K.is_(s, ex, 'Some', 'Option'), K.is_(s, e, 'Literal', 'Expr'), K.is_(s, lk, variant, 'LiteralKind')), K.payload(s, lk, variant)

def number(K, s, v):
    """(condition, number) denoted by a value that is an integer literal"""
    c, n = literal(K, s, v, 'IntNumber')
    r = K.E.symval(s, K.E.nty('Result<u128, std::num::ParseIntError>'), 'ext:ra_ap_syntax::ast::token_ext::value', [K.t(s, n)])
    return z3.And(c, K.is_(s, r, 'Ok', 'Result')), K.t(s, K.payload(s, r, 'Ok'))

def as_num(fn, mx):
    @contract(fn, crate=IR)
    def f(K):
        st = State()
        a = K.args(fn, st)
        wf(K, st, a[0])
        for o in K.run(fn, a, st):
            s = o.st
            c, n = number(K, s, a[0])
            K.ob('a value exactly if the literal\'s number fits', s, K.is_(s, o.val, 'Some', 'Option') == z3.And(c, n <= mx))
            b = K.E.branch(s, K.is_(s, o.val, 'Some', 'Option'))
            if b is not None:
                K.ob('the number the literal denotes', b, K.t(b, K.payload(b, o.val, 'Some')) == n)
    f.__doc__ = 'the number an integer literal denotes, in any notation, if it fits'
    CONTRACTS[-1].doc = f.__doc__
as_num(A + 'as_u16', 2**16 - 1)
as_num(A + 'as_u32', 2**32 - 1)

def text_of(K, s, v):
    c, t = literal(K, s, v, 'String')
    r = K.E.symval(s, K.E.nty("Option<std::borrow::Cow<'_, str>>"), 'ext:ra_ap_syntax::ast::token_ext::value', [K.t(s, t)])
    return z3.And(c, K.is_(s, r, 'Some', 'Option')), K.payload(s, r, 'Some')

@contract(A + 'as_string', crate=IR)
def as_string(K):
    """the text a string literal denotes (escapes and raw strings included)"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    wf(K, st, a[0])
    for o in K.run(fn, a, st):
        s = o.st
        c, t = text_of(K, s, a[0])
        K.ob('exactly for well formed string literals', s, K.is_(s, o.val, 'Some', 'Option') == c)
        b = K.E.branch(s, K.is_(s, o.val, 'Some', 'Option'))
        if b is not None:
            for o2 in K.E.fmt_value(K.E, b, t, 'Cow'):
                K.ob('its text', o2.st, K.t(o2.st, K.payload(o2.st, o.val, 'Some')) == K.t(o2.st, o2.val))

@contract(SA + 'cast', crate=IR)
def sel_cast(K):
    """a selector argument is any argument of that kind, classified by its value"""
    E = K.E
    K.opaque(A + 'kind', 'InkArg::value')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    arg = K.t(st, a[0])
    for o in K.run(fn, a, st):
        s = o.st
        sel = K.t(s, K.fld(s, arg, 'kind')) == vi(K, 'InkArgKind', 'Selector')
        K.ob('exactly selector arguments', s, K.is_(s, o.val, 'Some', 'Option') == sel)
        b = E.branch(s, sel)
        if b is None:
            continue
        v = K.deref(b, K.payload(b, o.val, 'Some'))
        K.ob('the argument', b, K.eq(b, K.fld(b, v, 'arg'), arg))
        val = K.spec(b, 'InkArg::value', [arg], 'Option<&MetaValue>')
        for s2, pl in K.some(b, val):
            kd = K.t(s2, K.fld(s2, v, 'kind'))
            if pl is None:
                K.ob('without value', s2, kd == vi(K, 'SelectorArgKind', 'Other'))
            else:
                k = K.t(s2, K.spec(s2, A + 'kind', [pl[0]], 'SyntaxKind'))
                want = z3.IntVal(vi(K, 'SelectorArgKind', 'Other'))
                for sk, n in (('INT_NUMBER', 'Integer'), ('UNDERSCORE', 'Wildcard'), ('AT', 'Complement')):
                    want = z3.If(k == vi(K, 'SyntaxKind', sk), vi(K, 'SelectorArgKind', n), want)
                K.ob('by its value', s2, kd == want)

@contract(SA + 'is_wildcard_complement', crate=IR)
def sel_complement(K):
    """`@` or the well-known selector 0x9BAE9D5E; a wildcard exactly for `_`; the number of an integer value"""
    E = K.E
    K.opaque('InkArg::value', A + 'as_u32')
    def num(s, v):
        val = K.spec(s, 'InkArg::value', [K.fld(s, v, 'arg')], 'Option<&MetaValue>')
        r = K.spec(s, A + 'as_u32', [K.payload(s, val, 'Some')], 'Option<u32>')
        return z3.And(K.is_(s, val, 'Some', 'Option'), K.is_(s, r, 'Some', 'Option')), K.t(s, K.payload(s, r, 'Some'))
    for fn in (SA + 'is_wildcard_complement', SA + 'is_wildcard', SA + 'as_u32'):
        st = State()
        a = K.args(fn, st)
        c, n = num(st, a[0])
        st.assume(z3.Implies(c, z3.And(n >= 0, n < 2**32)))
        for o in K.run(fn, a, st):
            s = o.st
            k = K.t(s, K.fld(s, a[0], 'kind'))
            if fn.endswith('complement'):
                K.ob('`@` or the reserved number', s, K.t(s, o.val) == z3.Or(k == vi(K, 'SelectorArgKind', 'Complement'), z3.And(c, n == 0x9BAE9D5E)))
            elif fn.endswith('wildcard'):
                K.ob('`_`', s, K.t(s, o.val) == (k == vi(K, 'SelectorArgKind', 'Wildcard')))
            else:
                K.ob('has a number', s, K.is_(s, o.val, 'Some', 'Option') == c)
                b = E.branch(s, K.is_(s, o.val, 'Some', 'Option'))
                if b is not None:
                    K.ob('the number', b, K.t(b, K.payload(b, o.val, 'Some')) == n)

def display(K, s, v, ty):
    return K.E.uf(f'display:{ty}:{ty}', [K.t(s, v)], z3.StringSort())

def tree(K):
    """the item tree around a callable is the syntax tree's (assumed; the tree walk itself is covered by the tree property)"""
    K.opaque('ast_ext::closest_ancestor_ast_type', 'utils::ink_arg_by_kind')

@contract(S + 'ident', crate=IR)
def sel_ident(K):
    """the name of the callable's function"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        f = K.E.symval(s, K.E.nty('Option<Fn>'), "ext:('as', 'T', 'IsInkFn')::fn_item", [K.t(s, a[0])])
        n = K.E.symval(s, K.E.nty('Option<Name>'), "ext:('as', 'Fn', 'HasName')::name", [K.t(s, K.payload(s, f, 'Some'))])
        has = z3.And(K.is_(s, f, 'Some', 'Option'), K.is_(s, n, 'Some', 'Option'))
        K.ob('named functions', s, K.is_(s, o.val, 'Some', 'Option') == has)
        b = K.E.branch(s, has)
        if b is not None:
            K.ob('the name', b, K.t(b, K.payload(b, o.val, 'Some')) == display(K, b, K.payload(b, n, 'Some'), 'Name'))

@contract(S + 'compose', crate=IR)
def compose(K):
    """the given number, else the reserved one for `@`, else the first four bytes of BLAKE2b-256 over namespace, trait and name joined by `::`"""
    E = K.E
    fn = K.con.fn
    K.opaque(S + 'ident', S + 'trait_ident', S + 'namespace', S + 'provided_int_selector', SA + 'is_wildcard_complement', '<_ as IsInkCallable>::selector_arg')
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        num = K.spec(s, S + 'provided_int_selector', [a[0]], 'Option<u32>')
        arg = K.spec(s, '<_ as IsInkCallable>::selector_arg', [a[0]], 'Option<SelectorArg>')
        comp = z3.And(K.is_(s, arg, 'Some', 'Option'), K.t(s, K.spec(s, SA + 'is_wildcard_complement', [K.payload(s, arg, 'Some')], 'bool')))
        idt, tr, ns = (K.spec(s, S + x, [a[0]], 'Option<String>') for x in ('ident', 'trait_ident', 'namespace'))
        given = K.is_(s, num, 'Some', 'Option')
        named = K.is_(s, idt, 'Some', 'Option')
        K.ob('a selector unless it would need a name', s, K.is_(s, o.val, 'Some', 'Option') == z3.Or(given, comp, named))
        b = E.branch(s, K.is_(s, o.val, 'Some', 'Option'))
        if b is None:
            continue
        def byte(st, i):
            v = K.deref(st, K.payload(st, o.val, 'Some'))
            bs = K.deref(st, E.get_field(st, v, None, 0, '[u8; 4]'))
            if not isinstance(bs, VSeq) or len(bs.items) != 4:
                raise ToolLimit('selector bytes')
            return K.t(st, bs.items[i])
        c = E.branch(b, given)
        if c is not None:
            n = K.t(c, K.payload(c, num, 'Some'))
            c.assume(z3.And(n >= 0, n < 2**32))
            K.ob('the given number, big endian', c, z3.And([byte(c, i) == (n / 256 ** (3 - i)) % 256 for i in range(4)]))
        c = E.branch(b, z3.And(z3.Not(given), comp))
        if c is not None:
            K.ob('the reserved selector', c, z3.And([byte(c, i) == x for i, x in enumerate((0x9B, 0xAE, 0x9D, 0x5E))]))
        c = E.branch(b, z3.And(z3.Not(given), z3.Not(comp)))
        if c is not None:
            t = K.t(c, K.payload(c, idt, 'Some'))
            for x in (tr, ns):
                t = z3.If(K.is_(c, x, 'Some', 'Option'), z3.Concat(K.t(c, K.payload(c, x, 'Some')), zstr('::'), t), t)
            h = E.uf('digest', [zstr('blake2b256'), t], E.sort(E.nty_from_name('Vec<u8>')))
            K.ob('the first four bytes of the hash', c, z3.And([byte(c, i) == K.t(c, E.symval(c, E.nty('u8'), 'at', [h, z3.IntVal(i)])) for i in range(4)]))

def parent_impl(K, s, callable):
    """the impl item the callable is in, as the entity's tree says"""
    return K.spec(s, 'HasInkImplParent::parent_impl_item', [callable], 'Option<Impl>')

def with_parent(K):
    def f(E, st, func, args, dty):
        yield Outcome(st, parent_impl(K, st, args[0]))
    K.E.contracts['HasInkImplParent::parent_impl_item'] = f
    K.E.contracts['<_ as HasInkImplParent>::parent_impl_item'] = f

@contract(S + 'namespace', crate=IR)
def namespace(K):
    """the text of the impl block's `namespace` argument"""
    E = K.E
    with_parent(K)
    K.opaque('utils::ink_arg_by_kind', 'InkArg::value', A + 'as_string')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        im = parent_impl(K, s, a[0])
        node = E.symval(s, E.nty('SyntaxNode'), "ext:('as', 'Impl', 'AstNode')::syntax", [K.t(s, K.payload(s, im, 'Some'))])
        arg = K.spec(s, 'utils::ink_arg_by_kind', [node, z3.IntVal(vi(K, 'InkArgKind', 'Namespace'))], 'Option<InkArg>')
        val = K.spec(s, 'InkArg::value', [K.payload(s, arg, 'Some')], 'Option<&MetaValue>')
        r = K.spec(s, A + 'as_string', [K.payload(s, val, 'Some')], 'Option<String>')
        has = z3.And(*[K.is_(s, x, 'Some', 'Option') for x in (im, arg, val, r)])
        K.ob('exactly if the impl has a namespace', s, K.is_(s, o.val, 'Some', 'Option') == has)
        b = E.branch(s, has)
        if b is not None:
            K.ob('its text', b, K.eq(b, K.payload(b, o.val, 'Some'), K.payload(b, r, 'Some')))

@contract(S + 'provided_int_selector', crate=IR)
def provided(K):
    """the number of the callable's selector argument"""
    E = K.E
    K.opaque(SA + 'as_u32', '<_ as IsInkCallable>::selector_arg')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        arg = K.spec(s, '<_ as IsInkCallable>::selector_arg', [a[0]], 'Option<SelectorArg>')
        r = K.spec(s, SA + 'as_u32', [K.payload(s, arg, 'Some')], 'Option<u32>')
        has = z3.And(K.is_(s, arg, 'Some', 'Option'), K.is_(s, r, 'Some', 'Option'))
        K.ob('exactly if it has one', s, K.is_(s, o.val, 'Some', 'Option') == has)
        b = E.branch(s, has)
        if b is not None:
            K.ob('the number', b, K.eq(b, K.payload(b, o.val, 'Some'), K.payload(b, r, 'Some')))

@contract(S + 'trait_ident', crate=IR)
def trait_ident(K):
    """a trait path with leading `::` counts in full (its tokens without trivia), any other by the name of its last segment"""
    E = K.E
    with_parent(K)
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    full = 0
    for o in K.run(fn, a, st):
        s = o.st
        im = parent_impl(K, s, a[0])
        ty = E.symval(s, E.nty('Option<Type>'), 'ext:ra_ap_syntax::ast::node_ext::trait_', [K.t(s, K.payload(s, im, 'Some'))])
        tv = K.payload(s, ty, 'Some')
        pt = K.payload(s, tv, 'PathType')
        path = E.symval(s, E.nty('Option<Path>'), 'ext:ra_ap_syntax::ast::PathType::path', [K.t(s, pt)])
        p = K.payload(s, path, 'Some')
        has = z3.And(K.is_(s, im, 'Some', 'Option'), K.is_(s, ty, 'Some', 'Option'), K.is_(s, tv, 'PathType', 'Type'), K.is_(s, path, 'Some', 'Option'))
        b = E.branch(s, z3.Not(has))
        if b is not None:
            K.ob('nothing for inherent impls', b, K.is_(b, o.val, 'None', 'Option'))
        b = E.branch(s, has)
        if b is None:
            continue
        fs = E.symval(b, E.nty('Option<PathSegment>'), 'ext:ra_ap_syntax::ast::node_ext::first_segment', [K.t(b, p)])
        cc = E.symval(b, E.nty('Option<SyntaxToken>'), 'ext:ra_ap_syntax::ast::PathSegment::coloncolon_token', [K.t(b, K.payload(b, fs, 'Some'))])
        lead = z3.And(K.is_(b, fs, 'Some', 'Option'), K.is_(b, cc, 'Some', 'Option'))
        c = E.branch(b, lead)
        if c is not None:
            js = c.ghost.get('joins', [])
            if len(js) != 1:
                raise ToolLimit('tokens of the path')
            t, it, sep = js[0]
            full += 1
            node = E.symval(c, E.nty('SyntaxNode'), "ext:('as', 'Path', 'AstNode')::syntax", [K.t(c, p)])
            want = [f(K.t(c, node)) for key, f in E.funcs.items() if key[0] == 'ext:rowan::api::SyntaxNode::descendants_with_tokens']
            if len(want) != 1:
                raise LostAnchor('tokens of the path')
            K.ob('full: the tokens of the path', c, z3.And(it.src == want[0], sep == zstr('')))
            K.ob('full: their text unless empty', c, z3.If(t == zstr(''), K.is_(c, o.val, 'None', 'Option'), z3.And(K.is_(c, o.val, 'Some', 'Option'), K.t(c, K.payload(c, o.val, 'Some')) == t)))
            for s3, item, kept, val in E.iter_elem(E, c, it):
                tok = K.payload(s3, item, 'Token')
                k = tkind(K, s3, tok)
                triv = [f(k) for key, f in E.funcs.items() if key[0] == 'ext:ra_ap_parser::syntax_kind::is_trivia']
                if not triv:
                    continue
                K.ob('full: exactly the tokens that are not trivia', s3, z3.BoolVal(kept) == z3.And(K.is_(s3, item, 'Token', 'NodeOrToken'), z3.Not(triv[0])))
                if kept:
                    K.ob('full: the token itself', s3, K.eq(s3, val, tok))
        c = E.branch(b, z3.Not(lead))
        if c is not None:
            sq = [f(K.t(c, p)) for key, f in E.funcs.items() if key[0] == 'ext:ra_ap_syntax::ast::node_ext::segments']
            if len(sq) != 1:
                raise LostAnchor('segments of the path')
            n = E.seq_len(c, sq[0])
            nr = E.symval(c, E.nty('Option<NameRef>'), 'ext:ra_ap_syntax::ast::PathSegment::name_ref', [E.symval(c, E.nty('PathSegment'), 'at', [sq[0], n - 1])])
            txt = display(K, c, K.payload(c, nr, 'Some'), 'NameRef')
            some = z3.And(n > 0, K.is_(c, nr, 'Some', 'Option'), txt != zstr(''))
            K.ob('relative: a name exactly if the last segment has one', c, K.is_(c, o.val, 'Some', 'Option') == some)
            d = E.branch(c, some)
            if d is not None:
                K.ob('relative: the name of the last segment', d, K.t(d, K.payload(d, o.val, 'Some')) == txt)
    if not full:
        raise LostAnchor('full trait paths')

@contract(A + 'parse', crate=IR)
def parse(K):
    """a lone `_` or `@` is a token, a literal or a path an expression, anything else no value; all elements are kept"""
    E = K.E
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        b = E.branch(s, K.is_(s, o.val, 'Some', 'Option'))
        if b is None:
            continue
        v = K.deref(b, K.payload(b, o.val, 'Some'))
        K.ob('elements are kept', b, K.eq(b, K.fld(b, v, 'elements'), a[0]))
        K.ob('there are elements', b, E.seq_len(b, K.t(b, a[0])) > 0)
        tok, ex = K.fld(b, v, 'token'), K.fld(b, v, 'expr')
        K.ob('a token or an expression', b, K.is_(b, tok, 'Some', 'Option') != K.is_(b, ex, 'Some', 'Option'))
        c = E.branch(b, K.is_(b, ex, 'Some', 'Option'))
        if c is not None:
            e = K.payload(c, ex, 'Some')
            K.ob('expressions are literals or paths', c, z3.Or(K.is_(c, e, 'Literal', 'Expr'), K.is_(c, e, 'PathExpr', 'Expr')))
            for t, it, sep in c.ghost.get('joins', []):
                K.ob('parsed from all elements in order', c, z3.And(it.src == K.t(c, a[0]), sep == zstr('')))
                K.ob('the parsed expression', c, K.eq(c, e, K.payload(c, E.symval(c, E.nty('Option<Expr>'), 'ext:ra_ap_syntax::hacks::parse_expr_from_str', [t]), 'Some')))
                for s3, item, kept, val in E.iter_elem(E, c, it):
                    K.ob('no element is dropped', s3, z3.BoolVal(kept))
                    k = [f for key, f in E.funcs.items() if key[0] == 'ext:rowan::api::kind']
                    tr = [f for key, f in E.funcs.items() if key[0] == 'ext:ra_ap_parser::syntax_kind::is_trivia']
                    if len(k) == 1 and len(tr) == 1:
                        x = K.t(s3, item)
                        ds = [f(x) for key, f in E.funcs.items() if key[0].startswith('display:NodeOrToken')]
                        d = E.branch(s3, tr[0](k[0](x)))
                        if d is not None:
                            K.ob('trivia is blank', d, K.t(d, val) == zstr(' '))
                        d = E.branch(s3, z3.Not(tr[0](k[0](x))))
                        if d is not None and ds:
                            K.ob('other elements as written', d, K.t(d, val) == ds[0])

def id_contract(fn, mx, kind, doc):
    @contract(fn, crate=IR)
    def f(K):
        E = K.E
        K.opaque('utils::ink_arg_by_kind', 'InkArg::value')
        st = State()
        a = K.args(fn, st)
        for o in K.run(fn, a, st):
            s = o.st
            nodes = [t for key, u in E.funcs.items() if key[0].endswith("::syntax") and 'InkEntity' in key[0] for t in [u(K.t(s, a[0]))]]
            node = nodes[0] if len(nodes) == 1 else K.t(s, K.fld(s, a[0], 'ast'))
            arg = K.spec(s, 'utils::ink_arg_by_kind', [node, z3.IntVal(vi(K, 'InkArgKind', kind))], 'Option<InkArg>')
            val = K.spec(s, 'InkArg::value', [K.payload(s, arg, 'Some')], 'Option<&MetaValue>')
            c, n = number(K, s, K.payload(s, val, 'Some'))
            has = z3.And(K.is_(s, arg, 'Some', 'Option'), K.is_(s, val, 'Some', 'Option'), c, n <= mx)
            K.ob('exactly if the argument has a number that fits', s, K.is_(s, o.val, 'Some', 'Option') == has)
            b = E.branch(s, K.is_(s, o.val, 'Some', 'Option'))
            if b is not None:
                K.ob('that number', b, K.t(b, K.payload(b, o.val, 'Some')) == n)
    f.__doc__ = doc
    CONTRACTS[-1].doc = doc
    CONTRACTS[-1].name = fn.replace('::', '_')
id_contract('Extension::id', 2**32 - 1, 'Extension', 'an ink! 4 extension\'s id is the u32 of its `extension` argument')
id_contract('Function::id', 2**16 - 1, 'Function', 'an ink! 5 function\'s id is the u16 of its `function` argument')
id_contract('ChainExtension::id', 2**16 - 1, 'Extension', 'an ink! 5 chain extension\'s id is the u16 of its `extension` argument')

@contract('traits::shared::IsInkCallable::selector_arg', crate=IR)
def selector_arg(K):
    """the callable's `selector` argument"""
    E = K.E
    K.opaque('utils::ink_arg_by_kind', SA + 'cast')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        node = E.symval(s, E.nty('SyntaxNode'), "ext:('as', 'Self', 'InkEntity')::syntax", [K.t(s, a[0])])
        arg = K.spec(s, 'utils::ink_arg_by_kind', [node, z3.IntVal(vi(K, 'InkArgKind', 'Selector'))], 'Option<InkArg>')
        r = K.spec(s, SA + 'cast', [K.payload(s, arg, 'Some')], 'Option<SelectorArg>')
        has = z3.And(K.is_(s, arg, 'Some', 'Option'), K.is_(s, r, 'Some', 'Option'))
        K.ob('exactly if it has one', s, K.is_(s, o.val, 'Some', 'Option') == has)
        b = E.branch(s, has)
        if b is not None:
            K.ob('that argument', b, K.eq(b, K.payload(b, o.val, 'Some'), K.payload(b, r, 'Some')))

@contract(A + 'as_hex_32', crate=IR)
def as_hex_32(K):
    """a hex value is the bytes its text denotes, if they are 32"""
    E = K.E
    K.opaque(A + 'as_string')
    for fn in (A + 'as_hex_vec', A + 'as_hex_32'):
        st = State()
        a = K.args(fn, st)
        for o in K.run(fn, a, st):
            s = o.st
            t = K.spec(s, A + 'as_string', [a[0]], 'Option<String>')
            h = E.symval(s, E.nty('Result<Vec<u8>, FromHexError>'), 'ext:impl_serde::serialize::from_hex', [K.t(s, K.payload(s, t, 'Some'))])
            has = z3.And(K.is_(s, t, 'Some', 'Option'), K.is_(s, h, 'Ok', 'Result'))
            if fn.endswith('vec'):
                K.ob('exactly for hex strings', s, K.is_(s, o.val, 'Some', 'Option') == has)
                b = E.branch(s, has)
                if b is not None:
                    K.ob('the bytes', b, K.eq(b, K.payload(b, o.val, 'Some'), K.payload(b, h, 'Ok')))
            else:
                K.ob('only for hex strings', s, z3.Implies(K.is_(s, o.val, 'Some', 'Option'), has))
