"""P13: the items ink! attributes are applied to have the shape ink! asks for."""
import z3
import kit
from kit import *
from diaglib import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['rust-analyzer\'s tree (children, parent, ranges, tokens) is a function of the source text']
A = 'ana'
ALSO = ('ir',)
C = D + 'common::'
CT = D + 'contract::'
IM = CT + 'ink_impl::'
GEN = C + 'run_generic_diagnostics'
DECLR = UT + 'ast_item_declaration_range'
QUASI = C + 'ensure_valid_quasi_direct_ink_descendants_by_kind'
NODESC = C + 'ensure_no_ink_descendants'

def opt(fn, cond, rng, opaque=(), T='T', name=None):
    """a contract for a function that gives an optional diagnostic about its first argument"""
    doc = 'reported there exactly if violated'
    def f(K):
        for q in list(UTILS) + list(opaque):
            K.opaque(q)
        K.opaque(*QUIET)
        st = State()
        a = K.args(fn, st)
        for o in K.run(fn, a, st):
            s = o.st
            option_diag(K, o, fn.split('::')[-1], cond(K, s, a), lambda s2: rng(K, s2, a))
    f.__doc__ = doc
    f.__name__ = name or fn.split('::')[-2] + '_' + fn.split('::')[-1]
    contract(fn, crate=A)(f)

def item_range(T='T'):
    return lambda K, s, a: node_range(K, s, ent(K, s, a[0], 'syntax', 'SyntaxNode', T=T))

no = lambda K, s, v: z3.Not(some_(K, s, v))

opt(C + 'ensure_fn', lambda K, s, a: no(K, s, tm(K, s, a[0], 'IsInkFn', 'fn_item', 'Option<Fn>')), item_range())
opt(C + 'ensure_trait', lambda K, s, a: no(K, s, tm(K, s, a[0], 'IsInkTrait', 'trait_item', 'Option<Trait>')), item_range())

def pub_struct_vis(K, s, a):
    st = tm(K, s, a[0], 'IsInkStruct', 'struct_item', 'Option<Struct>')
    v = tm(K, s, pay(K, s, st), 'HasVisibility', 'visibility', 'Option<Visibility>', ty='Struct')
    return st, v

def is_pub(K, s, v):
    return z3.And(some_(K, s, v), K.t(s, text_of(K, s, pay(K, s, v), 'Visibility')) == z3.StringVal('pub'))

def pub_struct_cond(K, s, a):
    st, v = pub_struct_vis(K, s, a)
    return z3.Not(z3.And(some_(K, s, st), is_pub(K, s, v)))

@contract(C + 'ensure_pub_struct', crate=A)
def pub_struct(K):
    """reported exactly if not a struct with visibility `pub`: at the visibility if there is one, else over the item"""
    fn = K.con.fn
    K.opaque(*QUIET)
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        item, v = pub_struct_vis(K, s, a)
        vis = z3.And(some_(K, s, item), some_(K, s, v))
        for b, r in ((K.E.branch(s, vis), lambda s: nrange(K, s, pay(K, s, v), 'Visibility')), (K.E.branch(s, z3.Not(vis)), lambda s: item_range()(K, s, a))):
            if b is not None:
                option_diag(K, Outcome(b, o.val), 'not a pub struct', pub_struct_cond(K, b, a), r)

def self_param(K, s, f):
    pl = am(K, s, f, 'Fn', 'param_list', 'Option<ParamList>')
    sp = am(K, s, pay(K, s, pl), 'ParamList', 'self_param', 'Option<SelfParam>')
    return pl, sp

opt(C + 'ensure_no_self_receiver', lambda K, s, a: z3.And(*[some_(K, s, v) for v in self_param(K, s, a[0])]), lambda K, s, a: nrange(K, s, pay(K, s, self_param(K, s, a[0])[1]), 'SelfParam'))

def generics(K, s, x, ty=None):
    return tm(K, s, x, 'HasGenericParams', 'generic_param_list', 'Option<GenericParamList>', ty=ty)

opt(C + 'ensure_no_generics', lambda K, s, a: some_(K, s, generics(K, s, a[0])), lambda K, s, a: nrange(K, s, pay(K, s, generics(K, s, a[0])), 'GenericParamList'))

@contract(C + 'ensure_no_trait_bounds', crate=A)
def no_bounds(K):
    """reported exactly if there are bounds, from the colon to the end of the bounds"""
    fn = K.con.fn
    K.opaque(*QUIET)
    st = State()
    a = K.args(fn, st)
    # the colon of the bounds comes before them
    l = tm(K, st, a[0], 'HasTypeBounds', 'type_bound_list', 'Option<TypeBoundList>')
    c = tm(K, st, a[0], 'HasTypeBounds', 'colon_token', 'Option<SyntaxToken>')
    st.assume(z3.Implies(z3.And(some_(K, st, l), some_(K, st, c)), K.t(st, K.E.get_field(st, trange(K, st, pay(K, st, c)), None, 0, 'TextSize')) <= K.t(st, K.E.get_field(st, nrange(K, st, pay(K, st, l), 'TypeBoundList'), None, 1, 'TextSize'))))
    for o in K.run(fn, a, st):
        s = o.st
        l = tm(K, s, a[0], 'HasTypeBounds', 'type_bound_list', 'Option<TypeBoundList>')
        c = tm(K, s, a[0], 'HasTypeBounds', 'colon_token', 'Option<SyntaxToken>')
        K.ob('exactly if there are bounds', s, some_(K, s, o.val) == some_(K, s, l))
        for s2, p in K.some(s, o.val):
            if p is not None:
                r = K.fld(s2, p[0], 'range')
                lr = nrange(K, s2, pay(K, s2, l), 'TypeBoundList')
                K.ob('to their end', s2, K.eq(s2, K.E.get_field(s2, r, None, 1, 'TextSize'), K.E.get_field(s2, lr, None, 1, 'TextSize')))
                K.ob('from the colon', s2, z3.Implies(some_(K, s2, c), K.eq(s2, K.E.get_field(s2, r, None, 0, 'TextSize'), K.E.get_field(s2, trange(K, s2, pay(K, s2, c)), None, 0, 'TextSize'))))
                K.ob('as error', s2, K.t(s2, K.fld(s2, p[0], 'severity')) == vi(K, 'Severity', 'Error'))

def tok(ty, name):
    return lambda K, s, x: am(K, s, x, ty, name + '_token', 'Option<SyntaxToken>')

def token_rules(K, s, x, ty, names):
    r = []
    for n in names:
        t = tok(ty, n)(K, s, x)
        r.append((f'`{n}`', some_(K, s, t), trange(K, s, pay(K, s, t))))
    return r

def gen_rule(K, s, x, ty):
    g = generics(K, s, x, ty)
    return ('generics', some_(K, s, g), nrange(K, s, pay(K, s, g), 'GenericParamList'))

@contract(C + 'ensure_fn_invariants', crate=A)
def fn_invariants(K):
    """generics, const, async, unsafe, extern and variadic parameters are each reported there, nothing else"""
    fn = K.con.fn
    st = start(K, opaque=UTILS)
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    f = a[1]
    for o, evs in fin:
        s = o.st
        abi = am(K, s, f, 'Fn', 'abi', 'Option<Abi>')
        rules(K, s, evs, [gen_rule(K, s, f, 'Fn')] + token_rules(K, s, f, 'Fn', ('const', 'async', 'unsafe')) + [('abi', some_(K, s, abi), nrange(K, s, pay(K, s, abi), 'Abi'))])
    pl = lambda s: am(K, s, f, 'Fn', 'param_list', 'Option<ParamList>')
    def per(s, x, evs):
        d = am(K, s, x, 'Param', 'dotdotdot_token', 'Option<SyntaxToken>')
        iff(K, s, 'variadic', evs, some_(K, s, d), trange(K, s, pay(K, s, d)))
    elems_of(K, fin, srcs, lambda s: am(K, s, pay(K, s, pl(s)), 'ParamList', 'params', 'AstChildren<Param>'), 'parameters', per)

@contract(C + 'ensure_callable_invariants', crate=A)
def callable_invariants(K):
    """a visibility other than `pub` is reported there; the common rules run"""
    fn = K.con.fn
    M = C + 'ensure_fn_invariants'
    st = start(K, M, opaque=UTILS)
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        s = o.st
        v = tm(K, s, a[1], 'HasVisibility', 'visibility', 'Option<Visibility>', ty='Fn')
        rules(K, s, evs, [('visibility', z3.And(some_(K, s, v), z3.Not(is_pub(K, s, v))), nrange(K, s, pay(K, s, v), 'Visibility'))])
        calls = [e for e in evs if e[0] == 'call']
        K.ob('the common rules run', s, z3.BoolVal(len(calls) == 1))
        for e in calls:
            K.ob('on the function', s, K.eq(s, e[2][0], a[1]))

@contract(C + 'ensure_trait_invariants', crate=A)
def trait_invariants(K):
    """unsafe, auto, generics, missing `pub` and supertraits are each reported there, nothing else"""
    fn = K.con.fn
    B = C + 'ensure_no_trait_bounds'
    st = start(K, opaque=UTILS + [(B, 1)])
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    t = a[1]
    for o, evs in fin:
        s = o.st
        v = tm(K, s, t, 'HasVisibility', 'visibility', 'Option<Visibility>', ty='Trait')
        b = K.spec(s, B, [t], 'Option<Diagnostic>')
        for x, r in ((K.E.branch(s, some_(K, s, v)), lambda s: nrange(K, s, pay(K, s, v), 'Visibility')), (K.E.branch(s, no(K, s, v)), lambda s: nrange(K, s, t, 'Trait'))):
            if x is not None:
                rest, sup = [], []
                for e in evs:
                    (sup if e[0] == 'push' and is_term(e[1]) else rest).append(e)
                K.ob('supertraits: reported exactly if there are any', x, z3.BoolVal(len(sup) == 1) == some_(K, x, b))
                for e in sup:
                    K.ob('supertraits: their diagnostic', x, K.eq(x, e[1], pay(K, x, b)))
                rules(K, x, rest, token_rules(K, x, t, 'Trait', ('unsafe', 'auto')) + [gen_rule(K, x, t, 'Trait'), ('not pub', z3.Not(is_pub(K, x, v)), r(x))])

@contract(CT + 'constructor::ensure_return_type', crate=A)
def return_type(K):
    """reported at the declaration exactly if there is no return type"""
    fn = K.con.fn
    K.opaque(*QUIET, *UTILS)
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        rt = am(K, s, a[0], 'Fn', 'ret_type', 'Option<RetType>')
        ty = am(K, s, pay(K, s, rt), 'RetType', 'ty', 'Option<Type>')
        option_diag(K, o, 'no return type', z3.Not(z3.And(some_(K, s, rt), some_(K, s, ty))), None)

@contract(D + 'message::ensure_receiver_is_self_ref', crate=A)
def receiver(K):
    """reported exactly if the first parameter is not `&self` or `&mut self`"""
    fn = K.con.fn
    K.opaque(*QUIET, *UTILS)
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        pl, sp = self_param(K, s, a[0])
        amp = tok('SelfParam', 'amp')(K, s, pay(K, s, sp))
        option_diag(K, o, 'no self reference', z3.Not(z3.And(some_(K, s, pl), some_(K, s, sp), some_(K, s, amp))), None)

@contract(D + 'message::ensure_not_return_self', crate=A)
def not_self(K):
    """reported at the return type exactly if it is `Self`"""
    fn = K.con.fn
    K.opaque(*QUIET, *UTILS)
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        rt = am(K, s, a[0], 'Fn', 'ret_type', 'Option<RetType>')
        ty = am(K, s, pay(K, s, rt), 'RetType', 'ty', 'Option<Type>')
        c = z3.And(some_(K, s, rt), some_(K, s, ty), K.t(s, text_of(K, s, pay(K, s, ty), 'Type')) == z3.StringVal('Self'))
        option_diag(K, o, 'returns Self', c, lambda s: nrange(K, s, pay(K, s, ty), 'Type'))

def event_struct(K, s, e):
    return tm(K, s, e, 'IsInkStruct', 'struct_item', 'Option<Struct>')

opt(D + 'event::ensure_no_generics_on_struct', lambda K, s, a: z3.And(some_(K, s, event_struct(K, s, a[0])), some_(K, s, generics(K, s, pay(K, s, event_struct(K, s, a[0])), 'Struct'))),
    lambda K, s, a: nrange(K, s, pay(K, s, generics(K, s, pay(K, s, event_struct(K, s, a[0])), 'Struct')), 'GenericParamList'))

@contract(D + 'event::ensure_no_cfg_event_fields', crate=A)
def cfg_fields(K):
    """every `cfg` attribute of every named field is reported there, nothing else"""
    E = K.E
    fn = K.con.fn
    st = start(K, opaque=UTILS)
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))
    n = 0
    for sr in srcs:
        if not isinstance(sr.it, VSymIter) or "'HasAttrs')::attrs" not in str(sr.it.src.decl()):
            if any(own(e) for _, _, e in sr.paths):
                raise ToolLimit('a source other than attributes')
            continue
        for s, x, evs in sr.paths:
            n += 1
            p = am(K, s, x, 'Attr', 'path', 'Option<Path>')
            iff(K, s, 'cfg attribute', evs, z3.And(some_(K, s, p), K.t(s, text_of(K, s, pay(K, s, p), 'Path')) == z3.StringVal('cfg')), nrange(K, s, x, 'Attr'))
    if not n:
        raise LostAnchor('attributes')

DESC = 'InkTree::ink_attrs_descendants'
CLOSE = 'InkTree::ink_attrs_closest_descendants'

def attr_kind(K, s, x):
    return K.fld(s, x, 'kind')

def kind_is(K, s, x, outer, inner_enum, inner):
    k = attr_kind(K, s, x)
    return z3.And(K.is_(s, k, outer, 'InkAttributeKind'), K.t(s, K.payload(s, k, outer)) == vi(K, inner_enum, inner))

def attr_range(K, s, x):
    return nrange(K, s, K.fld(s, x, 'ast'), 'Attr')

@contract(D + 'event::ensure_only_ink_topic_descendants', crate=A)
def only_topics(K):
    """every ink! attribute inside an event other than a topic is reported there"""
    fn = K.con.fn
    st = start(K, opaque=UTILS)
    iters(K, DESC, 'InkAttribute')
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))
    def per(s, x, evs):
        iff(K, s, 'not a topic', evs, z3.Not(kind_is(K, s, x, 'Arg', 'InkArgKind', 'Topic')), attr_range(K, s, x))
    elems_of(K, fin, srcs, lambda s: spec_seq(K, s, DESC, [ent(K, s, a[1], 'tree', 'InkTree')], 'InkAttribute'), 'descendants', per)

@contract(NODESC, crate=A)
def no_descendants(K):
    """every known ink! attribute inside the item (scale_derive only if not allowed) is reported there"""
    fn = K.con.fn
    st = start(K, opaque=UTILS + ['tree::ast_ext::parent_ast_item'])
    iters(K, DESC, 'InkAttribute')
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))
    def per(s, x, evs):
        unknown = z3.Or(kind_is(K, s, x, 'Macro', 'InkMacroKind', 'Unknown'), kind_is(K, s, x, 'Arg', 'InkArgKind', 'Unknown'))
        allowed = z3.And(K.t(s, a[3]), kind_is(K, s, x, 'Macro', 'InkMacroKind', 'ScaleDerive'))
        iff(K, s, 'attribute inside', evs, z3.Not(z3.Or(unknown, allowed)), attr_range(K, s, x))
    elems_of(K, fin, srcs, lambda s: spec_seq(K, s, DESC, [ent(K, s, a[1], 'tree', 'InkTree')], 'InkAttribute'), 'descendants', per)

@contract(D + 'event::topic::ensure_struct_field', crate=A)
def topic_field(K):
    """reported over the item exactly if the topic is not on a field"""
    fn = K.con.fn
    K.opaque(*QUIET, 'Topic::field')
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        at = ent(K, s, a[0], 'ink_attr', 'Option<InkAttribute>', T='Topic')
        f = K.spec(s, 'Topic::field', [a[0]], 'Option<RecordField>')
        option_diag(K, o, 'topic not on a field', z3.And(some_(K, s, at), no(K, s, f)), lambda s: node_range(K, s, ent(K, s, a[0], 'syntax', 'SyntaxNode', T='Topic')))

@contract(D + 'storage_item::ensure_adt', crate=A)
def storage_item_adt(K):
    """reported over the item exactly if it is no struct, enum or union"""
    fn = K.con.fn
    K.opaque(*QUIET, 'StorageItem::adt')
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        f = K.spec(s, 'StorageItem::adt', [a[0]], 'Option<Adt>')
        option_diag(K, o, 'not an adt', no(K, s, f), lambda s: node_range(K, s, ent(K, s, a[0], 'syntax', 'SyntaxNode', T='StorageItem')))

on_item = lambda K, s, a: [a[1], a[2]]
on_item1 = lambda K, s, a: [a[1]]

def with_fn(ty):
    item = lambda K, s, a: tm(K, s, a[1], 'IsInkFn', 'fn_item', 'Option<Fn>', ty=ty)
    return lambda K, s, a: [pay(K, s, item(K, s, a))], lambda K, s, a: some_(K, s, item(K, s, a))

def quasi_args(enum, inner, kind):
    def f(K, s, a):
        return [a[1], None, a[2]]
    return f

def quasi_kind(K, fin, enum, inner, kind):
    """the scope rules run for the right kind"""
    for o, evs in fin:
        for e in evs:
            if e[0] == 'call' and e[1] == QUASI:
                s = o.st
                K.ob('scope rules: of its kind', s, z3.And(K.is_(s, e[2][1], enum, 'InkAttributeKind'), K.t(s, K.payload(s, e[2][1], enum)) == vi(K, inner, kind)))

def fn_driver(fn, ty, kind, enum, inner, opts, callable_, extra=()):
    def f(K):
        """all rules of the entity run, once, on it and its function"""
        want, has = with_fn(ty)
        once = [(GEN, on_item), (QUASI, quasi_args(enum, inner, kind))] + [(x, on_item1) for x in extra]
        cond = {}
        if callable_:
            once.append((C + 'ensure_callable_invariants', want))
            cond[C + 'ensure_callable_invariants'] = has
        os_ = [((C + 'ensure_fn', 1), on_item1)]
        for q in opts:
            os_.append((q, want))
            cond[q if isinstance(q, str) else q[0]] = has
        a, fin, srcs = xdriver(K, fn, once, os_, cond=cond)
        quasi_kind(K, fin, enum, inner, kind)
    f.__name__ = fn.split('::')[-2] + '_driver'
    contract(fn, crate=A)(f)

def xdriver(K, fn, once, os_, loops=(), cond=None):
    """driver, with optional checks given as (name or (name, number of arguments that matter), arguments)"""
    K.opaque(*[q for q, _ in os_])
    names = []
    spec = []
    for q, w in os_:
        n = q if isinstance(q, str) else q[0]
        names.append((n, w))
    return driver(K, fn, once=once, opts=names, loops=loops, cond=cond, opaque=(), already=True)

fn_driver(CT + 'constructor::diagnostics', 'Constructor', 'Constructor', 'Arg', 'InkArgKind', [(C + 'ensure_no_self_receiver', 1), CT + 'constructor::ensure_return_type'], True)
fn_driver(D + 'message::diagnostics', 'Message', 'Message', 'Arg', 'InkArgKind', [D + 'message::ensure_receiver_is_self_ref', D + 'message::ensure_not_return_self'], True)
fn_driver(D + 'ink_test::diagnostics', 'InkTest', 'Test', 'Macro', 'InkMacroKind', [], False)
fn_driver(D + 'ink_e2e_test::diagnostics', 'InkE2ETest', 'E2ETest', 'Macro', 'InkMacroKind', [], False, extra=[D + 'environment::diagnostics'])

def no_derive(K, s, a):
    return [a[1], None, z3.BoolVal(False)]

@contract(CT + 'storage::diagnostics', crate=A)
def storage_driver(K):
    """all rules of a storage run, once"""
    xdriver(K, K.con.fn, [(GEN, on_item), (NODESC, no_derive)], [((C + 'ensure_pub_struct', 1), on_item1), ((C + 'ensure_contract_parent', 1), on_item1)])

@contract(D + 'storage_item::diagnostics', crate=A)
def storage_item_driver(K):
    """all rules of a storage item run, once"""
    xdriver(K, K.con.fn, [(GEN, on_item), (NODESC, no_derive)], [(D + 'storage_item::ensure_adt', on_item1)])

@contract(D + 'event::topic::diagnostics', crate=A)
def topic_driver(K):
    """all rules of a topic run, once"""
    xdriver(K, K.con.fn, [(GEN, on_item), (NODESC, no_derive)], [(D + 'event::topic::ensure_struct_field', on_item1)])

@contract(D + 'event::diagnostics', crate=A)
def event_driver(K):
    """all rules of an event run, once, and those of topics on every topic; its place only matters in ink! 4 and for `#[ink(event)]`"""
    def place(K, s, a):
        at = ent(K, s, a[1], 'ink_attr', 'Option<InkAttribute>')
        return z3.Or(K.t(s, a[2]) == vi(K, 'Version', 'V4'), z3.And(some_(K, s, at), kind_is(K, s, pay(K, s, at), 'Arg', 'InkArgKind', 'Event')))
    topics = lambda K, s, a: tm(K, s, a[1], 'IsInkEvent', 'topics', 'Vec<Topic>')
    xdriver(K, K.con.fn, [(GEN, on_item), (D + 'event::ensure_only_ink_topic_descendants', on_item1), (D + 'event::ensure_no_cfg_event_fields', on_item1)],
            [((C + 'ensure_pub_struct', 1), on_item1), ((C + 'ensure_contract_parent', 1), on_item1), (D + 'event::ensure_no_generics_on_struct', on_item1)],
            loops=[(topics, [D + 'event::topic::diagnostics'])], cond={C + 'ensure_contract_parent': place})

@contract(IM + 'diagnostics', crate=A)
def impl_driver(K):
    """all rules of an ink! impl run, once; those of its callables on every callable unless they are looked at elsewhere"""
    skip = lambda K, s, a: z3.Not(K.t(s, a[3]))
    xdriver(K, K.con.fn, [(GEN, on_item), (IM + 'ensure_impl_invariants', on_item1), (IM + 'ensure_callables_in_root', on_item1), (IM + 'ensure_trait_definition_impl_invariants', on_item),
                          (IM + 'ensure_valid_quasi_direct_ink_descendants', on_item)],
            [(IM + 'ensure_impl', on_item1), (IM + 'ensure_annotation_or_contains_callable', on_item1), ((C + 'ensure_contract_parent', 1), on_item1)],
            loops=[(lambda K, s, a: acc(K, s, a[1], 'InkImpl', 'constructors', 'Constructor'), [CT + 'constructor::diagnostics']), (lambda K, s, a: acc(K, s, a[1], 'InkImpl', 'messages', 'Message'), [D + 'message::diagnostics'])],
            cond={CT + 'constructor::diagnostics': skip, D + 'message::diagnostics': skip})

PI = '<_ as HasInkImplParent>::parent_impl_item'

@contract(IM + 'ensure_impl', crate=A)
def impl_item(K):
    """reported exactly if the item is no impl block"""
    fn = K.con.fn
    K.opaque(*QUIET, *UTILS, 'InkImpl::impl_attr')
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        option_diag(K, o, 'not an impl', no(K, s, K.fld(s, a[0], 'ast')), lambda s: K.spec(s, UT + 'ink_impl_declaration_range', [a[0]], 'TextRange'))

@contract(IM + 'ensure_parent_impl', crate=A)
def parent_impl(K):
    """reported exactly if the callable is not directly in this impl"""
    fn = K.con.fn
    K.opaque(*QUIET, *UTILS, PI)
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        par = K.spec(s, PI, [a[1]], 'Option<Impl>') if PI in K.spec_ty else tm(K, s, a[1], 'HasInkImplParent', 'parent_impl_item', 'Option<Impl>')
        me = K.eq(s, stx(K, s, pay(K, s, par), 'Impl'), ent(K, s, a[0], 'syntax', 'SyntaxNode', T='InkImpl'))
        option_diag(K, o, 'not in this impl', z3.Not(z3.And(some_(K, s, par), me)), lambda s: K.spec(s, UT + 'ink_impl_declaration_range', [a[0]], 'TextRange'))

@contract(IM + 'ensure_callables_in_root', crate=A)
def callables_in_root(K):
    """every constructor and message of the impl is checked, and what the check gives is reported"""
    fn = K.con.fn
    st = start(K, opaque=((IM + 'ensure_parent_impl', 2),))
    a = K.args(fn, st)
    seqs = [acc(K, st, a[1], 'InkImpl', 'constructors', 'Constructor'), acc(K, st, a[1], 'InkImpl', 'messages', 'Message')]
    every(K, fn, K.run(fn, a, st), st, seqs, ('constructors', 'messages'), lambda s, x: K.spec(s, IM + 'ensure_parent_impl', [a[1], x], 'Option<Diagnostic>'))

@contract(IM + 'ensure_annotation_or_contains_callable', crate=A)
def annotated(K):
    """reported exactly if the impl is neither marked nor has callables"""
    fn = K.con.fn
    K.opaque(*QUIET, *UTILS, 'InkImpl::impl_attr', 'analysis::actions::entity::add_constructor_to_impl', 'analysis::actions::entity::add_message_to_impl')
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        at = K.spec(s, 'InkImpl::impl_attr', [a[0]], 'Option<InkAttribute>')
        n = [K.E.seq_len(s, acc(K, s, a[0], 'InkImpl', f, t)) == 0 for f, t in (('constructors', 'Constructor'), ('messages', 'Message'))]
        option_diag(K, o, 'neither marked nor with callables', z3.And(no(K, s, at), *n), lambda s: K.spec(s, UT + 'ink_impl_declaration_range', [a[0]], 'TextRange'))

@contract(C + 'ensure_trait_item_invariants', crate=A)
def trait_items(K):
    """every associated const, macro call and default implementation is reported there; every function and type goes to its handler"""
    E = K.E
    fn = K.con.fn
    st = start(K, opaque=UTILS)
    a = K.args(fn, st)
    seen = []
    def handler(E, s, func, args, dty):
        seen.append(func)
        tup = K.deref(s, args[1])
        item = tup.fields[1]
        s.ghost['log'] = list(s.ghost['log']) + [('handler', K.t(s, args[0]), item)]
        yield Outcome(s, UNIT)
    E.contracts['<_ as FnMut>::call_mut'] = handler
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))
    def per(s, x, evs):
        evs = own(evs)
        push = [e for e in evs if e[0] == 'push']
        hand = [e for e in evs if e[0] == 'handler']
        for v in ('Const', 'MacroCall', 'TypeAlias', 'Fn'):
            b = E.branch(s, K.is_(s, x, v, 'AssocItem'))
            if b is None:
                continue
            p = K.payload(b, x, v)
            if v in ('Const', 'MacroCall'):
                K.ob(f'{v}: reported, not handled', b, z3.BoolVal(len(push) == 1 and not hand))
                for e in push:
                    diag_is(K, b, v, e, nrange(K, b, p, v))
            else:
                K.ob(f'{v}: goes to its handler', b, z3.BoolVal(len(hand) == 1))
                for e in hand:
                    K.ob(f'{v}: the right handler', b, e[1] == K.t(b, a[3 if v == 'Fn' else 4]))
                    K.ob(f'{v}: the item', b, K.eq(b, e[2], p))
                if v == 'Fn':
                    body = am(K, b, p, 'Fn', 'body', 'Option<BlockExpr>')
                    iff(K, b, 'default implementation', push, some_(K, b, body), nrange(K, b, pay(K, b, body), 'BlockExpr'))
                else:
                    K.ob(f'{v}: not reported here', b, z3.BoolVal(not push))
    elems_of(K, fin, srcs, lambda s: am(K, s, pay(K, s, am(K, s, a[1], 'Trait', 'assoc_item_list', 'Option<AssocItemList>')), 'AssocItemList', 'assoc_items', 'AstChildren<AssocItem>'), 'associated items', per)

def impl_invariants(K, dflt, unsf):
    """default, unsafe, generics, generic self type segments, a namespace on a trait impl and wrong visibilities are each reported there"""
    E = K.E
    # only a quick fix's edit position hangs on the alternatives: any value will do
    E.contracts['Option::or_else'] = lambda E, st, func, args, dty: iter([Outcome(st, E.fresh(st, E.nty(dty), 'alt'))])
    fn = K.con.fn
    E.known_ret = dict(E.known_ret, **{'<_ as IsInkFn>::fn_item': "std::option::Option<&'a Fn>"})
    st = start(K, opaque=UTILS + ['InkImpl::trait_type', 'InkImpl::namespace_arg', 'InkArg::text_range'])
    a = K.args(fn, st)
    im0 = pay(K, st, K.fld(st, a[1], 'ast'))
    for t, v in (('default', dflt), ('unsafe', unsf)):
        st.assume(some_(K, st, tok('Impl', t)(K, st, im0)) == v)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    im = lambda s: pay(K, s, K.fld(s, a[1], 'ast'))
    for o, evs in fin:
        s = o.st
        b = E.branch(s, no(K, s, K.fld(s, a[1], 'ast')))
        if b is not None:
            K.ob('nothing to report', b, z3.BoolVal(not own(evs)))
        b = E.branch(s, some_(K, s, K.fld(s, a[1], 'ast')))
        if b is None:
            continue
        s = b
        tt = K.spec(s, 'InkImpl::trait_type', [a[1]], 'Option<Type>')
        ns = K.spec(s, 'InkImpl::namespace_arg', [a[1]], 'Option<InkArg>')
        rules(K, s, evs, token_rules(K, s, im(s), 'Impl', ('default', 'unsafe')) + [gen_rule(K, s, im(s), 'Impl'),
              ('namespace on a trait impl', z3.And(some_(K, s, tt), some_(K, s, ns)), K.spec(s, 'InkArg::text_range', [pay(K, s, ns)], 'TextRange'))])
    cons, msgs = [lambda s, f=f, t=t: K.t(s, acc(K, s, a[1], 'InkImpl', f, t)) for f, t in (('constructors', 'Constructor'), ('messages', 'Message'))]
    hit = set()
    for sr in srcs:
        if not isinstance(sr.it, VSymIter):
            raise ToolLimit('source')
        kind = [i for i, f in enumerate((cons, msgs)) if same(E, sr.it.src, f(sr.s))]
        for s, x, evs in sr.paths:
            if kind:
                hit.add(kind[0])
                f = tm(K, s, x, 'IsInkFn', 'fn_item', 'Option<Fn>', ty=('Constructor', 'Message')[kind[0]])
                v = tm(K, s, pay(K, s, f), 'HasVisibility', 'visibility', 'Option<Visibility>', ty='Fn')
                tr = am(K, s, im(s), 'Impl', 'trait_', 'Option<Type>')
                bad = z3.And(some_(K, s, f), z3.If(some_(K, s, tr), some_(K, s, v), z3.Not(is_pub(K, s, v))))
                for b, r in ((E.branch(s, some_(K, s, v)), lambda s: nrange(K, s, pay(K, s, v), 'Visibility')), (E.branch(s, no(K, s, v)), lambda s: None)):
                    if b is not None:
                        iff(K, b, 'visibility', evs, bad, r(b))
            else:
                hit.add('segments')
                g = tm(K, s, x, 'HasGenericArgs', 'generic_arg_list', 'Option<GenericArgList>', ty='PathSegment') if not any('PathSegment::generic_arg_list' in k[0] for k in E.funcs) else am(K, s, x, 'PathSegment', 'generic_arg_list', 'Option<GenericArgList>')
                iff(K, s, 'generic self type', evs, some_(K, s, g), nrange(K, s, pay(K, s, g), 'GenericArgList'))
    for w in (0, 1, 'segments'):
        if w not in hit:
            raise LostAnchor(str(w))

# every impl block falls under one of these four
for _d in (False, True):
    for _u in (False, True):
        def _f(K, d=_d, u=_u):
            impl_invariants(K, d, u)
        _f.__doc__ = impl_invariants.__doc__ + f' (default {_d}, unsafe {_u})'
        _f.__name__ = f'impl_invariants_{_d}_{_u}'.lower()
        contract(IM + 'ensure_impl_invariants', crate=A)(_f)

TD = D + 'trait_definition::'
TDI = TD + 'ensure_trait_item_invariants'

@contract(TD + 'diagnostics', crate=A)
def trait_definition_driver(K):
    """all rules of a trait definition run, once, and those of messages on every message"""
    item = lambda K, s, a: tm(K, s, a[1], 'IsInkTrait', 'trait_item', 'Option<Trait>', ty='TraitDefinition')
    has = lambda K, s, a: some_(K, s, item(K, s, a))
    xdriver(K, K.con.fn, [(GEN, on_item), (C + 'ensure_trait_invariants', lambda K, s, a: [pay(K, s, item(K, s, a))]), (TDI, lambda K, s, a: [pay(K, s, item(K, s, a)), a[2]]), (TD + 'ensure_valid_quasi_direct_ink_descendants', on_item)],
            [((C + 'ensure_trait', 1), on_item1), (TD + 'ensure_contains_message', on_item1)],
            loops=[(lambda K, s, a: acc(K, s, a[1], 'TraitDefinition', 'messages', 'Message'), [D + 'message::diagnostics'])],
            cond={C + 'ensure_trait_invariants': has, TDI: has})

@contract(TD + 'ensure_valid_quasi_direct_ink_descendants', crate=A)
def trait_definition_scope(K):
    """the scope rules of trait definitions run on it"""
    a, fin, srcs = xdriver(K, K.con.fn, [(QUASI, lambda K, s, a: [a[1], None, a[2]])], [])
    quasi_kind(K, fin, 'Macro', 'InkMacroKind', 'TraitDefinition')

@contract(TD + 'ensure_contains_message', crate=A)
def contains_message(K):
    """reported exactly if there is no message"""
    fn = K.con.fn
    K.opaque(*QUIET, *UTILS, 'analysis::actions::entity::add_message_to_trait_def')
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        option_diag(K, o, 'no message', K.E.seq_len(s, acc(K, s, a[0], 'TraitDefinition', 'messages', 'Message')) == 0, None)

def with_handler(K, which, ty, opaque, names=()):
    """runs the handler that the function gives the common rules for items of that kind, on an arbitrary item"""
    E = K.E
    fn = K.con.fn
    st = start(K, *names, opaque=opaque)
    item = E.fresh(st, E.nty(ty), 'item')
    def common(E, s, func, args, dty):
        for x in E.call_value(s, args[which], [args[0], item], '()'):
            yield Outcome(x.st, UNIT)
    E.contracts[C + 'ensure_trait_item_invariants'] = common
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    return a, item, fin, srcs

@contract(TDI, crate=A)
def associated_type(K):
    """an associated type is reported there"""
    a, item, fin, srcs = with_handler(K, 4, 'TypeAlias', UTILS)
    for o, evs in fin:
        iff(K, o.st, 'associated type', evs, True, nrange(K, o.st, item, 'TypeAlias'))

@contract(TDI, crate=A)
def trait_method(K):
    """a method runs the rules of messages if it is one and is reported otherwise; every wildcard argument is reported there"""
    IA = 'tree::utils::ink_attrs'
    iters(K, IA, 'InkAttribute')
    a, item, fin, srcs = with_handler(K, 3, 'Fn', UTILS + ['InkArg::text_range', 'InkArg::value', 'MetaValue::is_wildcard'], (D + 'message::diagnostics',))
    attrs = lambda s: spec_seq(K, s, IA, [stx(K, s, item, 'Fn')], 'InkAttribute')
    cast = known(K, lambda n: 'InkEntity' in n and n.split('@')[0].endswith('::cast') and 'Message' in n, None)
    if cast is None:
        raise LostAnchor('messages')
    def is_msg(s, j):
        at = K.E.symval(s, K.E.nty('InkAttribute'), 'at', [K.t(s, attrs(s)), j])
        return some_(K, s, ext(K, s, cast, [stx(K, s, K.fld(s, at, 'ast'), 'Attr')], 'Option<T>'))
    j = z3.Int('any')
    for o, evs in fin:
        s = o.st
        evs = own(evs)
        call = [e for e in evs if e[0] == 'call']
        push = [e for e in evs if e[0] == 'push']
        K.ob('message rules or a report', s, z3.BoolVal(len(call) + len(push) == 1))
        n = K.E.seq_len(s, attrs(s))
        none = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(is_msg(s, j))))
        for e in push:
            K.ob('no message: reported only then', s, none)
            diag_is(K, s, 'no message', e, None)
        for e in call:
            K.ob('message: the rules run only then', s, z3.Not(none))
    n = 0
    for sr in srcs:
        if not isinstance(sr.it, VSymIter):
            raise ToolLimit('source')
        if same(K.E, sr.it.src, K.t(sr.s, attrs(sr.s))):
            if any(own(e) for _, _, e in sr.paths):
                raise ToolLimit('attributes')
            continue
        for s, x, evs in sr.paths:
            n += 1
            v = K.spec(s, 'InkArg::value', [x], 'Option<MetaValue>')
            w = K.t(s, K.spec(s, 'MetaValue::is_wildcard', [pay(K, s, v)], 'bool'))
            iff(K, s, 'wildcard', evs, z3.And(some_(K, s, v), w), K.spec(s, 'InkArg::text_range', [x], 'TextRange'))
    if not n:
        raise LostAnchor('arguments')
