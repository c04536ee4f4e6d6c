"""P09: ink! attributes are recognised by what they name, whatever their layout or argument order."""
import z3
import kit
from kit import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['rust-analyzer\'s syntax tree (paths, segments, token trees, token kinds and texts) is a function of the source text',
               'Itertools::sorted and Iterator::min are stable (the first of equally ranked elements comes first)']
IR = 'ir'
MACROS = {'ChainExtension': ('ink', 'chain_extension'), 'Contract': ('ink', 'contract'), 'Event': ('ink', 'event'), 'ScaleDerive': ('ink', 'scale_derive'),
          'StorageItem': ('ink', 'storage_item'), 'Test': ('ink', 'test'), 'TraitDefinition': ('ink', 'trait_definition'), 'E2ETest': ('ink_e2e', 'test')}
ARGS = {'AdditionalContracts': 'additional_contracts', 'Anonymous': 'anonymous', 'Backend': 'backend', 'Constructor': 'constructor', 'Decode': 'Decode',
        'Default': 'default', 'Derive': 'derive', 'Encode': 'Encode', 'Env': 'env', 'Environment': 'environment', 'Event': 'event', 'Extension': 'extension',
        'Function': 'function', 'HandleStatus': 'handle_status', 'Impl': 'impl', 'KeepAttr': 'keep_attr', 'Message': 'message', 'Namespace': 'namespace',
        'Node': 'node', 'Payable': 'payable', 'RuntimeOnly': 'runtime_only', 'Sandbox': 'sandbox', 'Selector': 'selector', 'SignatureTopic': 'signature_topic',
        'Storage': 'storage', 'Topic': 'topic', 'TypeInfo': 'TypeInfo', 'Url': 'url'}
ENTITY = ['Constructor', 'Event', 'Extension', 'Function', 'Impl', 'Message', 'Storage', 'Topic']

def vi(K, en, v):
    return K.E.defs.variant_index(en, v)

def macro_of(K, crate, name):
    r = z3.IntVal(vi(K, 'InkMacroKind', 'Unknown'))
    for k, (c, n) in MACROS.items():
        r = z3.If(z3.And(crate == zstr(c), name == zstr(n)), vi(K, 'InkMacroKind', k), r)
    return r

def arg_of(K, name):
    r = z3.IntVal(vi(K, 'InkArgKind', 'Unknown'))
    for k, n in ARGS.items():
        r = z3.If(name == zstr(n), vi(K, 'InkArgKind', k), r)
    return r

def rank(K, a):
    """entity arguments before complementary ones before unknown ones"""
    return z3.If(a == vi(K, 'InkArgKind', 'Unknown'), 2, z3.If(z3.Or([a == vi(K, 'InkArgKind', e) for e in ENTITY]), 0, 1))

def tri(x, y):
    return z3.If(x < y, -1, z3.If(x == y, 0, 1))

@contract('<InkMacroKind as From<(&str, &str)>>::from', crate=IR)
def macro_from(K):
    """`ink::<macro>` and `ink_e2e::test` name their macro; every other pair of segments is unknown"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    c, n = K.t(st, K.E.get_field(st, K.deref(st, a[0]), None, 0, 'str')), K.t(st, K.E.get_field(st, K.deref(st, a[0]), None, 1, 'str'))
    for o in K.run(fn, a, st):
        K.ob('the kind the path names', o.st, K.t(o.st, o.val) == macro_of(K, c, n))

@contract('<InkArgKind as From<str>>::from', crate=IR)
def arg_from(K):
    """every ink! argument keyword names its kind; every other text is unknown"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        K.ob('the kind the keyword names', o.st, K.t(o.st, o.val) == arg_of(K, K.t(st, a[0])))

def per_variant(K, fn, en, table, unknown):
    st = State()
    a = K.args(fn, st)
    x = K.t(st, a[0])
    for o in K.run(fn, a, st):
        for k, want in table.items():
            b = K.E.branch(o.st, x == vi(K, en, k))
            if b is not None:
                K.ob(f'{k}', b, K.t(b, o.val) == zstr(want))
        if unknown is not None:
            b = K.E.branch(o.st, x == vi(K, en, 'Unknown'))
            if b is not None:
                K.ob('unknown', b, K.t(b, o.val) == zstr(unknown))

@contract('InkMacroKind::macro_name', crate=IR)
def macro_name(K):
    """the macro's name as written in source"""
    per_variant(K, K.con.fn, 'InkMacroKind', {k: n for k, (c, n) in MACROS.items()}, '')

@contract('InkMacroKind::crate_name', crate=IR)
def crate_name(K):
    """the crate that provides the macro"""
    per_variant(K, K.con.fn, 'InkMacroKind', {k: c for k, (c, n) in MACROS.items()}, '')

@contract('InkMacroKind::path_as_str', crate=IR)
def macro_path(K):
    """the macro's path as written in source"""
    per_variant(K, K.con.fn, 'InkMacroKind', {k: f'{c}::{n}' for k, (c, n) in MACROS.items()}, '')

@contract('<InkArgKind as Display>::fmt', crate=IR)
def arg_display(K):
    """an argument kind is printed as the keyword that is read back as this kind"""
    K.body(K.con.fn)
    st = State()
    a = K.E.symval(st, K.E.nty('InkArgKind'), 'kind')
    for o in K.E.fmt_value(K.E, st, a, 'InkArgKind'):
        if o.panic:
            K.fail('no panic', str(o.panic))
            continue
        K.reach += 1
        for k, want in ARGS.items():
            b = K.E.branch(o.st, K.t(o.st, a) == vi(K, 'InkArgKind', k))
            if b is not None:
                K.ob(k, b, K.t(b, o.val) == zstr(want))

@contract('InkMacroKind::macro_name', crate=IR)
def round_trip(K):
    """lemma: reading back the crate and name of a known macro gives the macro"""
    st = State()
    k = K.E.symval(st, K.E.nty('InkMacroKind'), 'kind')
    st.assume(k != vi(K, 'InkMacroKind', 'Unknown'))
    for o in K.run('InkMacroKind::macro_name', [k], st):
        for o2 in K.run('InkMacroKind::crate_name', [k], o.st):
            pair = VAdt('(str,str)', None, {0: o2.val, 1: o.val})
            for o3 in K.run('<InkMacroKind as From<(&str, &str)>>::from', [pair], o2.st):
                K.ob('read back', o3.st, K.t(o3.st, o3.val) == k)

@contract('<InkArgKind as Ord>::cmp', crate=IR)
def arg_order(K):
    """entity kinds rank before complementary ones, those before unknown ones, equally ranked kinds are equal: a total preorder"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    x, y = K.t(st, a[0]), K.t(st, a[1])
    bad = []
    for o in K.run(fn, a, st):
        K.ob('by rank', o.st, K.t(o.st, o.val) == tri(rank(K, x), rank(K, y)))

def with_order(K):
    """callers are checked against the contract of InkArgKind's order"""
    def cmp(E, st, func, args, dty):
        x, y = (K.t(st, v) for v in args)
        yield Outcome(st, tri(rank(K, x), rank(K, y)))
    K.E.contracts['<InkArgKind as Ord>::cmp'] = cmp

@contract('<InkArgKind as PartialOrd>::partial_cmp', crate=IR)
def arg_partial(K):
    """partial order and order agree"""
    with_order(K)
    for fn, ty in (('<InkArgKind as PartialOrd>::partial_cmp', '<InkArgKind as Ord>::cmp'), ('<InkArg as PartialOrd>::partial_cmp', '<InkArg as Ord>::cmp'),
                   ('<InkAttributeKind as PartialOrd>::partial_cmp', '<InkAttributeKind as Ord>::cmp'), ('<InkAttribute as PartialOrd>::partial_cmp', '<InkAttribute as Ord>::cmp')):
        st = State()
        a = K.args(fn, st)
        for o in K.run(fn, a, st):
            K.ob('always comparable', o.st, K.is_(o.st, o.val, 'Some', 'Option'))
            for o2 in K.run(ty, a, o.st.fork()) if ty != '<InkArgKind as Ord>::cmp' else K.E.call(o.st.fork(), ty, a, 'std::cmp::Ordering'):
                K.ob('the same answer', o2.st, K.t(o2.st, K.payload(o2.st, o.val, 'Some')) == K.t(o2.st, o2.val))

@contract('<InkArg as Ord>::cmp', crate=IR)
def inkarg_order(K):
    """arguments are ordered by their kind alone"""
    with_order(K)
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        K.ob('by rank of the kind', s, K.t(s, o.val) == tri(rank(K, K.fld(s, a[0], 'kind')), rank(K, K.fld(s, a[1], 'kind'))))

@contract('<InkAttributeKind as Ord>::cmp', crate=IR)
def attr_order(K):
    """macros before arguments, macros equal, arguments by rank"""
    with_order(K)
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    def r(s, v):
        return z3.If(K.is_(s, v, 'Macro'), -1, rank(K, K.t(s, K.payload(s, v, 'Arg'))))
    for o in K.run(fn, a, st):
        K.ob('by rank', o.st, K.t(o.st, o.val) == tri(r(o.st, a[0]), r(o.st, a[1])))

@contract('InkArgKind::is_entity_type', crate=IR)
def classes(K):
    """an argument kind is of entity type, complementary or unknown, exclusively"""
    for fn, c in (('InkArgKind::is_entity_type', 0), ('InkArgKind::is_complementary', 1)):
        st = State()
        a = K.args(fn, st)
        for o in K.run(fn, a, st):
            K.ob('by rank', o.st, K.t(o.st, o.val) == (rank(K, K.t(o.st, a[0])) == c))

@contract('InkAttributeKind::is_unknown', crate=IR)
def is_unknown(K):
    """unknown macro or unknown primary argument"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        want = z3.Or(z3.And(K.is_(s, a[0], 'Macro'), K.t(s, K.payload(s, a[0], 'Macro')) == vi(K, 'InkMacroKind', 'Unknown')),
                     z3.And(K.is_(s, a[0], 'Arg'), K.t(s, K.payload(s, a[0], 'Arg')) == vi(K, 'InkArgKind', 'Unknown')))
        K.ob('exactly for unknown kinds', s, K.t(s, o.val) == want)

def name_text(K, s, name):
    return K.E.symval(s, K.E.nty('&str'), 'ext:name_text', [K.t(s, name)])

def with_text(K):
    def text(E, st, func, args, dty):
        yield Outcome(st, name_text(K, st, args[0]))
    for n in ('<MetaName as AstToken>::text', '<_ as AstToken>::text'):
        K.E.contracts[n] = text
    def af(E, st, func, args, dty):
        yield Outcome(st, arg_of(K, K.t(st, args[0])))
    K.E.contracts['<InkArgKind as From<str>>::from'] = af

@contract('<InkArg as From<MetaNameValue>>::from', crate=IR)
def inkarg_from(K):
    """an argument has the kind its name says (unknown without a proper name) and keeps its meta item"""
    with_text(K)
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    m = K.t(st, a[0])
    for o in K.run(fn, a, st):
        s = o.st
        name = K.fld(s, a[0], 'name')
        kind = K.fld(s, o.val, 'kind')
        b = K.E.branch(s, K.is_(s, name, 'Ok', 'MetaOption'))
        if b is not None:
            K.ob('named', b, K.t(b, kind) == arg_of(K, name_text(K, b, K.payload(b, name, 'Ok'))))
        b = K.E.branch(s, z3.Not(K.is_(s, name, 'Ok', 'MetaOption')))
        if b is not None:
            K.ob('unnamed', b, K.t(b, kind) == vi(K, 'InkArgKind', 'Unknown'))
        K.ob('meta item kept', s, K.t(s, K.fld(s, o.val, 'meta')) == m)

@contract('InkArg::nested', crate=IR)
def nested(K):
    """a nested argument is the argument of the nested meta item"""
    def af(E, st, func, args, dty):
        yield Outcome(st, E.symval(st, E.nty('InkArg'), 'spec:arg', [K.t(st, args[0])]))
    K.E.contracts['<InkArg as From<MetaNameValue>>::from'] = af
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        n = K.fld(s, a[0], 'meta.nested')
        for s2, pl in K.some(s, n):
            if pl is None:
                K.ob('none', s2, K.is_(s2, o.val, 'None', 'Option'))
            else:
                K.ob('its argument', s2, z3.And(K.is_(s2, o.val, 'Some', 'Option'), K.t(s2, K.payload(s2, o.val, 'Some')) == K.t(s2, K.E.symval(s2, K.E.nty('InkArg'), 'spec:arg', [K.t(s2, pl[0])]))))

@contract('InkAttribute::can_cast', crate=IR)
def can_cast(K):
    """an attribute is an ink! attribute exactly if its path starts with `ink` or `ink_e2e`"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        c, seg = first_seg(K, o.st, a[0])
        K.ob('by the first segment', o.st, K.t(o.st, o.val) == c)

def segs(K, s, attr):
    """(path condition, segment sequence)"""
    path = K.E.symval(s, K.E.nty('Option<Path>'), 'ext:ra_ap_syntax::ast::node_ext::path', [K.t(s, attr)])
    p = K.payload(s, path, 'Some')
    for key, f in K.E.funcs.items():
        if key[0] == 'ext:ra_ap_syntax::ast::node_ext::segments':
            return K.is_(s, path, 'Some', 'Option'), f(K.t(s, p))
    return K.is_(s, path, 'Some', 'Option'), None

def seg(K, s, sq, i):
    return K.E.symval(s, K.E.nty('PathSegment'), 'at', [sq, z3.IntVal(i)])

def seg_text(K, s, x):
    return K.E.uf('display:PathSegment:PathSegment', [x], z3.StringSort())

def first_seg(K, s, attr):
    has, sq = segs(K, s, attr)
    if sq is None:
        return z3.BoolVal(False), None
    x = seg(K, s, sq, 0)
    t = seg_text(K, s, x)
    return z3.And(has, K.E.seq_len(s, sq) > 0, z3.Or(t == zstr('ink'), t == zstr('ink_e2e'))), x

@contract('InkAttribute::cast', crate=IR)
def cast(K):
    """macro attributes by their two path segments (more are unknown); argument attributes by their highest ranked, first argument; nothing else is cast"""
    E = K.E
    with_order(K)
    K.opaque('attrs::parser::parse_ink_args')
    def mf(E, st, func, args, dty):
        v = K.deref(st, args[0])
        yield Outcome(st, macro_of(K, K.t(st, E.get_field(st, v, None, 0, 'str')), K.t(st, E.get_field(st, v, None, 1, 'str'))))
    E.contracts['<InkMacroKind as From<(&str, &str)>>::from'] = mf
    def cc(E, st, func, args, dty):
        yield Outcome(st, E.uf('spec:can_cast', [K.t(st, args[0])], z3.BoolSort()))
    E.contracts['InkAttribute::can_cast'] = cc
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    attr = K.t(st, a[0])
    outs = E.exec_body(K.body(fn), list(a), st)
    UM, UA = vi(K, 'InkMacroKind', 'Unknown'), vi(K, 'InkArgKind', 'Unknown')
    for o in outs:
        s = o.st
        can = E.uf('spec:can_cast', [attr], z3.BoolSort())
        # contract of can_cast
        c, sg = first_seg(K, s, attr)
        if segs(K, s, attr)[1] is not None:
            s.assume(can == c)
        if o.panic:
            K.ob(f'no panic ({str(o.panic)[:80]})', s, z3.BoolVal(False))
            continue
        K.reach += 1
        b = E.branch(s, z3.Not(can))
        if b is not None:
            K.ob('other attributes are not cast', b, K.is_(b, o.val, 'None', 'Option'))
        s = E.branch(s, can)
        if s is None:
            continue
        has, sq = segs(K, s, attr)
        K.ob('an ink! attribute is cast', s, K.is_(s, o.val, 'Some', 'Option'))
        v = K.deref(s, K.payload(s, o.val, 'Some'))
        K.ob('its node', s, K.eq(s, K.fld(s, v, 'ast'), attr))
        K.ob('its ink segment', s, K.eq(s, K.fld(s, v, 'ink'), sg))
        args = K.spec(s, 'attrs::parser::parse_ink_args', [attr], 'Vec<InkArg>')
        K.ob('its arguments in order', s, K.eq(s, K.fld(s, v, 'args'), args))
        kind = K.fld(s, v, 'kind')
        n = E.seq_len(s, sq)
        b = E.branch(s, n == 2)
        if b is not None:
            x1 = seg(K, b, sq, 1)
            K.ob('a macro', b, K.is_(b, kind, 'Macro'))
            K.ob('of the kind the path names', b, K.t(b, K.payload(b, kind, 'Macro')) == macro_of(K, seg_text(K, b, sg), seg_text(K, b, x1)))
            K.ob('its macro segment', b, z3.And(K.is_(b, K.fld(b, v, 'ink_macro'), 'Some', 'Option'), K.eq(b, K.payload(b, K.fld(b, v, 'ink_macro'), 'Some'), x1)))
        b = E.branch(s, n > 2)
        if b is not None:
            K.ob('longer paths: unknown macro', b, z3.And(K.is_(b, kind, 'Macro'), K.t(b, K.payload(b, kind, 'Macro')) == UM))
        b = E.branch(s, z3.And(n == 1, E.seq_len(s, args) == 0))
        if b is not None:
            tt = E.symval(b, E.nty('Option<TokenTree>'), 'ext:ra_ap_syntax::ast::node_ext::token_tree', [attr])
            K.ob('without arguments: unknown argument with parentheses, unknown macro without', b, z3.If(K.is_(b, tt, 'Some', 'Option'),
                 z3.And(K.is_(b, kind, 'Arg'), K.t(b, K.payload(b, kind, 'Arg')) == UA), z3.And(K.is_(b, kind, 'Macro'), K.t(b, K.payload(b, kind, 'Macro')) == UM)))
        b = E.branch(s, z3.And(n == 1, E.seq_len(s, args) > 0))
        if b is not None:
            K.ob('an argument attribute', b, K.is_(b, kind, 'Arg'))
            kd = K.t(b, K.payload(b, kind, 'Arg'))
            i = z3.Int('any_arg')
            x = E.symval(b, E.nty('InkArg'), 'at', [args, i])
            xk = K.t(b, K.fld(b, x, 'kind'))
            rb = b.fork()
            rb.assume(z3.And(i >= 0, i < E.seq_len(rb, args)))
            K.ob('no argument outranks the primary one', rb, rank(K, xk) >= rank(K, kd))
            w = b.ghost.get('idx')
            if w is not None and not isinstance(w, list):
                y = E.symval(b, E.nty('InkArg'), 'at', [args, w])
                K.ob('the primary kind is that of one of the arguments', b, z3.And(w >= 0, w < E.seq_len(b, args), K.t(b, K.fld(b, y, 'kind')) == kd))
                rb2 = b.fork()
                rb2.assume(z3.And(i >= 0, i < w))
                K.ob('the first of its rank', rb2, rank(K, xk) > rank(K, kd))

VALUES = {'AdditionalContracts': ('String', 'SpaceList'), 'Backend': ('Choice', 'Node', 'RuntimeOnly', True), 'Env': ('Path', 'Environment'), 'Environment': ('Path', 'Environment'),
          'Extension': ('U32',), 'Function': ('U16',), 'HandleStatus': ('Bool',), 'Derive': ('Bool',), 'KeepAttr': ('String', 'CommaList'), 'Namespace': ('String', 'Identifier'),
          'Node': ('Arg', 'Url', False), 'RuntimeOnly': ('Arg', 'Sandbox', False), 'Sandbox': ('Path', 'Sandbox'), 'Selector': ('U32OrWildcard',),
          'SignatureTopic': ('String', 'Hex'), 'Url': ('String', 'Url')}
SUB = {'String': ['InkArgValueStringKind'], 'Path': ['InkArgValuePathKind'], 'Choice': ['InkArgKind', 'InkArgKind', None], 'Arg': ['InkArgKind', None]}

def value_is(K, s, v, want):
    c = [K.is_(s, v, want[0], 'InkArgValueKind')]
    for i, x in enumerate(want[1:]):
        p = K.t(s, K.payload(s, v, want[0], i))
        en = SUB[want[0]][i]
        c.append(p == vi(K, en, x) if en else p == x)
    return z3.And(c)

@contract('<InkArgValueKind as From<InkArgKind>>::from', crate=IR)
def value_from(K):
    """the value each argument takes in ink! 4 (and every argument without special rules in ink! 5)"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        for k in ARGS:
            b = K.E.branch(o.st, K.t(o.st, a[0]) == vi(K, 'InkArgKind', k))
            if b is not None:
                K.ob(f'value of `{ARGS[k]}`', b, value_is(K, b, o.val, VALUES.get(k, ('None',))))

@contract('InkArgValueKind::from_v5', crate=IR)
def value_from_v5(K):
    """ink! 5: `extension` takes u16, `selector` also `@` except on constructors, everything else as in ink! 4"""
    E = K.E
    def vf(E, st, func, args, dty):
        yield Outcome(st, E.symval(st, E.nty(dty), 'spec:value', [K.t(st, args[0])]))
    E.contracts['<InkArgValueKind as From<InkArgKind>>::from'] = vf
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    k = K.t(st, a[0])
    ext, sel = vi(K, 'InkArgKind', 'Extension'), vi(K, 'InkArgKind', 'Selector')
    for o in K.run(fn, a, st):
        s = o.st
        con = z3.And(K.is_(s, a[1], 'Some', 'Option'), K.t(s, K.payload(s, a[1], 'Some')))
        b = E.branch(s, k == ext)
        if b is not None:
            K.ob('extension', b, value_is(K, b, o.val, ('U16',)))
        b = E.branch(s, k == sel)
        if b is not None:
            K.ob('selector', b, z3.If(con, value_is(K, b, o.val, ('U32OrWildcard',)), value_is(K, b, o.val, ('U32OrWildcardOrComplement',))))
        b = E.branch(s, z3.And(k != ext, k != sel))
        if b is not None:
            K.ob('others as in ink! 4', b, K.eq(b, o.val, E.symval(b, E.nty('InkArgValueKind'), 'spec:value', [k])))

@contract('<MetaName as AstToken>::can_cast', crate=IR)
def meta_name(K):
    """argument names are identifiers or the keyword `impl`"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        k = K.t(o.st, a[0])
        K.ob('identifier or impl', o.st, K.t(o.st, o.val) == z3.Or(k == vi(K, 'SyntaxKind', 'IDENT'), k == vi(K, 'SyntaxKind', 'IMPL_KW')))
