"""P14: attribute arguments, unknown and repeated attributes, reserved identifiers."""
import z3
import kit
from kit import *
from diaglib import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['rust-analyzer\'s tree (children, tokens, ranges) is a function of the source text', 'itertools\' unique_by keeps the first element of each key']
A = 'ana'
ALSO = ('ir',)
C = D + 'common::'
SCOPE = 'InkTree::ink_attrs_in_scope'
IA = 'tree::utils::ink_attrs'
IDENTS, UNKNOWN, ARG, DUP, ENT = (C + x for x in ('ensure_no_ink_identifiers', 'ensure_no_unknown_ink_attributes', 'validate_arg', 'ensure_no_duplicate_attributes_and_arguments', 'validate_entity_attributes'))

def kind_is(K, s, k, outer, inner):
    return z3.And(K.is_(s, k, outer, 'InkAttributeKind'), K.t(s, K.payload(s, k, outer)) == vi(K, f'Ink{outer}Kind', inner))

@contract(IDENTS, crate=A)
def idents(K):
    """every identifier that starts with `__ink_` is reported there, nothing else"""
    fn = K.con.fn
    st = start(K, opaque=UTILS)
    DWT = 'rowan::api::SyntaxNode::descendants_with_tokens'
    iters(K, DWT, 'NodeOrToken<SyntaxNode,SyntaxToken>')
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))
    def per(s, x, evs):
        NT = 'NodeOrToken<SyntaxNode,SyntaxToken>'
        tok = K.is_(s, x, 'Token', 'NodeOrToken')
        i = tm(K, s, K.payload(s, x, 'Token'), 'AstToken', 'cast', 'Option<Ident>', ty='Ident')
        name = K.t(s, K.E.symval(s, K.E.nty('String'), 'display:Ident:Ident', [K.t(s, pay(K, s, i))]))
        iff(K, s, 'reserved identifier', evs, z3.And(tok, some_(K, s, i), z3.PrefixOf(z3.StringVal('__ink_'), name)), trange(K, s, tm(K, s, pay(K, s, i), 'AstToken', 'syntax', 'SyntaxToken', ty='Ident')))
    elems_of(K, fin, srcs, lambda s: spec_seq(K, s, DWT, [ent(K, s, a[1], 'syntax', 'SyntaxNode', T='T')], 'NodeOrToken<SyntaxNode,SyntaxToken>'), 'tokens', per)

@contract(UNKNOWN, crate=A)
def unknown(K):
    """every unknown attribute is reported as a warning: at the macro name, else the argument name, else the attribute"""
    fn = K.con.fn
    st = start(K, opaque=UTILS)
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))
    def per(s, x, evs):
        k = K.fld(s, x, 'kind')
        iff(K, s, 'unknown attribute', evs, z3.Or(kind_is(K, s, k, 'Macro', 'Unknown'), kind_is(K, s, k, 'Arg', 'Unknown')), None, 'Warning')
        m, n = K.fld(s, x, 'ink_macro'), K.fld(s, x, 'ink_arg_name')
        hm, hn = some_(K, s, m), some_(K, s, n)
        for e in own(evs):
            r = K.fld(s, e[1], 'range')
            K.ob('at the macro name', s, z3.Implies(hm, K.eq(s, r, nrange(K, s, pay(K, s, m), 'PathSegment'))))
            K.ob('at the argument name', s, z3.Implies(z3.And(z3.Not(hm), hn), K.eq(s, r, trange(K, s, K.E.get_field(s, pay(K, s, n), None, 0, 'SyntaxToken')))))
            K.ob('at the attribute', s, z3.Implies(z3.And(z3.Not(hm), z3.Not(hn)), K.eq(s, r, nrange(K, s, K.fld(s, x, 'ast'), 'Attr'))))
    elems_of(K, fin, srcs, lambda s: a[1], 'attributes', per)

@contract(C + 'run_generic_diagnostics', crate=A)
def generic(K):
    """the identifier and unknown-attribute rules run once over the item, the argument rules on every argument in scope, the repetition and conflict rules on the attributes of every annotated node in scope"""
    fn = K.con.fn
    K.E.contracts.update({})
    st = start(K, IDENTS, UNKNOWN, ARG, DUP, ENT, opaque=UTILS)
    iters(K, SCOPE, 'InkAttribute')
    iters(K, IA, 'InkAttribute')
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    scope = lambda s: spec_seq(K, s, SCOPE, [ent(K, s, a[1], 'tree', 'InkTree', T='T')], 'InkAttribute')
    def is_all(s, v, seq):
        v = K.deref(s, v)
        parts = K.parts(s, v)
        if len(parts) != 1 or not isinstance(parts[0], VSymIter) or parts[0].stages:
            raise ToolLimit('attributes handed on')
        return z3.BoolVal(same(K.E, parts[0].src, K.t(s, seq)))
    for o, evs in fin:
        s = o.st
        evs = own(evs)
        for f in (IDENTS, UNKNOWN):
            got = [e for e in evs if e[0] == 'call' and e[1] == f]
            K.ob(f'{f}: runs once', s, z3.BoolVal(len(got) == 1))
            for e in got:
                K.ob(f'{f}: on the item', s, K.eq(s, e[2][0], a[1]) if f == IDENTS else is_all(s, e[2][0], scope(s)))
        K.ob('nothing else outside the loops', s, z3.BoolVal(len(evs) == 2))
    hit = set()
    for sr in srcs:
        if not isinstance(sr.it, VSymIter):
            raise ToolLimit('source')
        src = sr.it.src
        if same(K.E, src, K.t(sr.s, scope(sr.s))):
            if not sr.it.stages:
                for s, x, evs in sr.paths:
                    # the inner loop over the arguments of this attribute
                    if own(evs):
                        raise ToolLimit('attributes in scope')
                    hit.add('attributes')
                continue
            if stage_key(sr.it) != ('filter_map', 'unique'):
                raise ToolLimit('annotated nodes')
            for s, x, evs in sr.paths:
                evs = own(evs)
                hit.add('nodes')
                par = ext(K, s, known(K, lambda n: n.endswith('SyntaxNode::parent'), 'rowan::api::SyntaxNode::parent'), [stx(K, s, K.fld(s, x, 'ast'), 'Attr')], 'Option<SyntaxNode>')
                n = K.E.seq_len(s, spec_seq(K, s, IA, [pay(K, s, par)], 'InkAttribute'))
                for f in (DUP, ENT):
                    got = [e for e in evs if e[1] == f]
                    if len(evs) == 0:
                        # dropped as a repetition, without parent, or no attributes
                        continue
                    K.ob(f'{f}: runs on the attributes of every annotated node', s, z3.BoolVal(len(got) == 1))
                    for e in got:
                        K.ob(f'{f}: its attributes', s, is_all(s, e[2][0], spec_seq(K, s, IA, [pay(K, s, par)], 'InkAttribute')))
                        if f == ENT:
                            K.ob('for the version', s, K.eq(s, e[2][1], a[2]))
                if not evs and not s.ghost.get('dup'):
                    K.ob('skipped only without attributes', s, z3.Or(z3.Not(some_(K, s, par)), n == 0))
            continue
        for s, x, evs in sr.paths:
            evs = own(evs)
            hit.add('arguments')
            K.ob('the argument rules run on every argument', s, z3.BoolVal(len(evs) == 1 and evs[0][1] == ARG))
            for e in evs:
                K.ob('on it', s, K.eq(s, e[2][0], x))
                K.ob('for the version', s, K.eq(s, e[2][1], a[2]))
                K.ob('with its attribute', s, some_(K, s, e[2][2]))
                K.ob('an argument of that attribute', s, z3.BoolVal(same(K.E, src, K.t(s, K.fld(s, pay(K, s, e[2][2]), 'args', of='InkAttribute')))))
    for w in ('attributes', 'nodes', 'arguments'):
        if w not in hit:
            raise LostAnchor(w)

VALS = ['InkArg::text_range', 'InkArg::value', 'InkArg::nested', 'MetaNameValue::eq', 'MetaNameValue::value'] + ['MetaValue::' + m for m in ('as_u16', 'as_u32', 'as_bool', 'as_string', 'as_hex_32', 'as_ident', 'is_wildcard', 'is_at_symbol', 'as_path_with_inaccurate_text_range')]
WORDS = [C + 'is_url_like', UT + 'ink_arg_insert_text', 'InkArgValueKind::detail']

@contract(ARG, crate=A)
def arg_values(K):
    """an argument is reported exactly if its value is not of the kind its name asks for in that version; nested ones are followed"""
    fn = K.con.fn
    E = K.E
    E.plain_display |= {'MetaOption', 'MetaValue', 'InkArgKind', 'InkArg', 'MetaName', 'MetaNameValue', 'InkMacroKind'}
    st = start(K, ARG, opaque=UTILS + VALS + WORDS)
    a = K.args(fn, st)
    arg, ver, attr = a[1], a[2], a[3]
    kinds = [v for v, _ in E.defs.enums['InkArgKind']]
    seen = set()
    for o in K.run(fn, a, st):
        evs = own(o.st.ghost['log'])
        for kind in kinds:
            s = E.branch(o.st, K.t(o.st, K.fld(o.st, arg, 'kind')) == vi(K, 'InkArgKind', kind))
            if s is None:
                continue
            seen.add(kind)
            push = [e for e in evs if e[0] == 'push']
            calls = [e for e in evs if e[0] == 'call']
            rng = K.spec(s, 'InkArg::text_range', [arg], 'TextRange')
            if kind == 'Unknown':
                K.ob('unknown: reported', s, z3.BoolVal(len(push) == 1 and not calls))
                name = K.t(s, E.symval(s, E.nty('String'), 'display:MetaOption:MetaOption<MetaName>', [K.t(s, K.fld(s, arg, 'meta.name'))]))
                for e in push:
                    K.ob('unknown: there', s, K.eq(s, K.fld(s, e[1], 'range'), rng))
                    K.ob('unknown: a warning, missing: an error', s, K.t(s, K.fld(s, e[1], 'severity')) == z3.If(name == z3.StringVal(''), vi(K, 'Severity', 'Error'), vi(K, 'Severity', 'Warning')))
                continue
            v = K.spec(s, 'InkArg::value', [arg], 'Option<MetaValue>')
            has, val = some_(K, s, v), pay(K, s, v)
            m = lambda name, ty: K.spec(s, 'MetaValue::' + name, [val], ty)
            v5 = K.t(s, ver) == vi(K, 'Version', 'V5')
            u32 = some_(K, s, m('as_u32', 'Option<u32>'))
            u16 = some_(K, s, m('as_u16', 'Option<u16>'))
            string = some_(K, s, m('as_string', 'Option<String>'))
            text = K.t(s, pay(K, s, m('as_string', 'Option<String>')))
            path = some_(K, s, m('as_path_with_inaccurate_text_range', 'Option<Path>'))
            if kind in NESTED:
                nested(K, s, kind, push, calls, arg, ver, attr, rng, has)
                continue
            if kind in ('Env', 'Environment', 'Sandbox'):
                good = z3.And(has, path)
            elif kind in ('AdditionalContracts', 'KeepAttr'):
                good = z3.And(has, string)
            elif kind == 'Namespace':
                good = z3.And(has, string, some_(K, s, m('as_ident', 'Option<Ident>')))
            elif kind == 'SignatureTopic':
                good = z3.And(has, string, some_(K, s, m('as_hex_32', 'Option<[u8; 32]>')))
            elif kind == 'Url':
                good = z3.And(has, string, K.t(s, K.spec(s, C + 'is_url_like', [text], 'bool')))
            elif kind in ('HandleStatus', 'Derive'):
                good = z3.And(has, some_(K, s, m('as_bool', 'Option<bool>')))
            elif kind == 'Extension':
                good = z3.And(has, z3.If(v5, u16, u32))
            elif kind == 'Function':
                good = z3.And(has, u16)
            elif kind == 'Selector':
                ctor = z3.And(some_(K, s, attr), kind_is(K, s, K.fld(s, pay(K, s, attr), 'kind', of='InkAttribute'), 'Arg', 'Constructor'))
                good = z3.And(has, z3.Or(u32, K.t(s, m('is_wildcard', 'bool')), z3.And(v5, z3.Not(ctor), K.t(s, m('is_at_symbol', 'bool')))))
            else:
                meta = K.fld(s, arg, 'meta')
                eq = some_(K, s, K.spec(s, 'MetaNameValue::eq', [meta], 'Option<MetaSeparator>'))
                mv = K.spec(s, 'MetaNameValue::value', [meta], 'MetaOption<MetaValue>')
                good = z3.Not(z3.Or(eq, z3.Not(K.is_(s, mv, 'None', 'MetaOption'))))
            K.ob(f'{kind}: no other rule', s, z3.BoolVal(not calls))
            iff(K, s, f'{kind}', evs, z3.Not(good), rng)
    for kind in kinds:
        if kind not in seen:
            raise LostAnchor(kind)

NESTED = {'Backend': (('Node', 'RuntimeOnly'), True), 'Node': (('Url',), False), 'RuntimeOnly': (('Sandbox',), False)}

def nested(K, s, kind, push, calls, arg, ver, attr, rng, has):
    opts, required = NESTED[kind]
    n = K.spec(s, 'InkArg::nested', [arg], 'Option<InkArg>')
    hn, inner = some_(K, s, n), pay(K, s, n)
    ok = z3.Or([K.t(s, K.fld(s, inner, 'kind', of='InkArg')) == vi(K, 'InkArgKind', o) for o in opts])
    at_arg = z3.Or(has, z3.And(z3.BoolVal(required), z3.Not(hn)))
    at_inner = z3.And(z3.Not(has), hn, z3.Not(ok))
    K.ob(f'{kind}: reported exactly if it has a value, lacks what it needs or has another argument inside', s, z3.Or(at_arg, at_inner) == z3.BoolVal(len(push) == 1))
    K.ob(f'{kind}: once', s, z3.BoolVal(len(push) <= 1 and len(calls) <= 1))
    for e in push:
        r = K.fld(s, e[1], 'range')
        K.ob(f'{kind}: at the argument', s, z3.Implies(at_arg, K.eq(s, r, rng)))
        K.ob(f'{kind}: at the inner argument', s, z3.Implies(at_inner, K.eq(s, r, K.spec(s, 'InkArg::text_range', [inner], 'TextRange'))))
        K.ob(f'{kind}: as error', s, K.t(s, K.fld(s, e[1], 'severity')) == vi(K, 'Severity', 'Error'))
    K.ob(f'{kind}: an allowed inner argument is looked at', s, z3.And(z3.Not(has), hn, ok) == z3.BoolVal(len(calls) == 1))
    for e in calls:
        K.ob(f'{kind}: that one', s, z3.And(K.eq(s, e[2][0], inner), K.eq(s, e[2][1], ver), K.eq(s, e[2][2], attr)))

@contract(C + 'is_url_like', crate=A)
def url_like(K):
    """a text is taken for a url exactly if it contains `://`"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        t, sep = K.t(o.st, a[0]), z3.StringVal('://')
        full = z3.Full(z3.ReSort(z3.StringSort()))
        # the same language, said the way the code says it (the solver relates the two slowly)
        want = z3.Contains(t, sep) if 'str.contains' in o.val.sexpr() else z3.InRe(t, z3.Concat(full, z3.Re(sep), full))
        K.ob('contains ://', o.st, o.val == want)

@contract(DUP, crate=A)
def repeated(K):
    """an attribute or argument is reported exactly if an earlier one of the same known kind belongs to the same item"""
    fn = K.con.fn
    E = K.E
    E.plain_display |= {'MetaOption', 'InkArgKind', 'InkMacroKind'}
    st = start(K, opaque=UTILS + VALS)
    a = K.args(fn, st)
    attrs = K.t(st, a[1])
    def kinds(s, fr):
        """the sets of macro kinds and argument kinds"""
        r = {}
        for c in {fr.cells[int(p[1:])] for n, p in fr.body.debug if p[1:].isdigit() and int(p[1:]) in fr.cells}:
            v = s.cells.get(c)
            if isinstance(v, VMap):
                for k in ('InkMacroKind', 'InkArgKind'):
                    if v.kty.endswith(k):
                        r.setdefault(k, set()).add(c)
        if set(r) != {'InkMacroKind', 'InkArgKind'} or any(len(x) != 1 for x in r.values()):
            raise ToolLimit('what the loops remember')
        return [s.cells[next(iter(r[k]))] for k in ('InkMacroKind', 'InkArgKind')]
    def attr_at(s, j):
        return E.symval(s, E.nty('InkAttribute'), 'at', [attrs, j])
    def args_of(s, x):
        return K.t(s, K.fld(s, x, 'args', of='InkAttribute'))
    def arg_kind(s, seq, i):
        return K.t(s, K.fld(s, E.symval(s, E.nty('InkArg'), 'at', [seq, i]), 'kind', of='InkArg'))
    def macro_before(s, k, q):
        j = z3.Int('j!mac')
        kd = K.fld(s, attr_at(s, j), 'kind', of='InkAttribute')
        return z3.Exists([j], z3.And(j >= 0, j < k, K.is_(s, kd, 'Macro', 'InkAttributeKind'), K.t(s, K.payload(s, kd, 'Macro')) == q))
    def arg_here(s, seq, n, q):
        i = z3.Int('i!arg')
        return z3.Exists([i], z3.And(i >= 0, i < n, arg_kind(s, seq, i) == q))
    def arg_before(s, k, q):
        j, i = z3.Ints('j!att i!arg')
        seq = args_of(s, attr_at(s, j))
        return z3.Exists([j, i], z3.And(j >= 0, j < k, i >= 0, i < E.seq_len(s, seq), arg_kind(s, seq, i) == q))
    def pos(v):
        return z3.IntVal(v.started) if v.pos is None else v.pos
    def iters_in(fr, s):
        vs = [v for v in (s.cells.get(c) for c in fr.cells.values()) if isinstance(v, VSymIter) and not v.stages]
        outer = [v for v in vs if same(E, v.src, attrs)]
        inner = [v for v in vs if v.ety.lstrip('&').endswith('InkArg')]
        return ([v for v in outer if v.pos is not None] or outer or [None])[0], ([v for v in inner if v.pos is not None] or inner or [None])[0]
    def inv(E, fr, s, phase):
        o, _ = iters_in(fr, s)
        if o is None:
            raise ToolLimit('the attributes the loop is over')
        macros, args = kinds(s, fr)
        q = z3.Int('q!kind')
        k = pos(o)
        _, i0 = iters_in(fr, E.loop_entry)
        inner = i0 is not None
        fm = K.has(s, macros, q) == macro_before(s, k, q)
        if inner:
            _, i = iters_in(fr, s)
            k1 = z3.simplify(k - 1)
            fa = K.has(s, args, q) == z3.Or(arg_before(s, k1, q), arg_here(s, i.src, pos(i), q))
            if phase != 'assume':
                K.ob('the arguments looked at are those of the attribute', s, i.src == args_of(s, attr_at(s, k1)))
        else:
            fa = K.has(s, args, q) == arg_before(s, k, q)
        if phase == 'assume':
            s.assume(z3.ForAll([q], fm))
            s.assume(z3.ForAll([q], fa))
        else:
            K.ob(f'exactly the macros seen so far are remembered ({phase})', s, fm)
            K.ob(f'exactly the arguments seen so far are remembered ({phase})', s, fa)
    E.loop_invs[fn] = inv
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))
    hit = set()
    for sr in srcs:
        if not isinstance(sr.it, VSymIter):
            raise ToolLimit('source')
        outer = same(E, sr.it.src, attrs)
        for s, x, evs in sr.paths:
            its = s.ghost['its']
            if outer:
                hit.add('macros')
                k = its[0][3]
                kd = K.fld(s, x, 'kind', of='InkAttribute')
                q = K.t(s, K.payload(s, kd, 'Macro'))
                iff(K, s, 'repeated macro', evs, z3.And(K.is_(s, kd, 'Macro', 'InkAttributeKind'), q != vi(K, 'InkMacroKind', 'Unknown'), macro_before(s, k, q)), nrange(K, s, K.fld(s, x, 'ast', of='InkAttribute'), 'Attr'))
            else:
                hit.add('arguments')
                k, i = its[0][3], its[-1][3]
                q = K.t(s, K.fld(s, x, 'kind', of='InkArg'))
                iff(K, s, 'repeated argument', evs, z3.And(q != vi(K, 'InkArgKind', 'Unknown'), z3.Or(arg_before(s, k, q), arg_here(s, sr.it.src, i, q))), K.spec(s, 'InkArg::text_range', [x], 'TextRange'))
    for w in ('macros', 'arguments'):
        if w not in hit:
            raise LostAnchor(w)
