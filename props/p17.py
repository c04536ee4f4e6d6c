"""P17: chain extensions and what they use are accepted exactly if ink! accepts them."""
import z3
import kit
from kit import *
from diaglib import *
from p13 import C, GEN, QUASI, xdriver, quasi_kind, with_handler, attr_range
from p12 import empty_local, loop_iter
from vc import VOpqIter
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['rust-analyzer\'s tree (children, parent, ranges, tokens) is a function of the source text', 'resolution of paths to items is a function of path and place', 'the ancestors of a node begin with the node itself', 'a node casts to a syntax type exactly if the type says so of its kind']
A = 'ana'
ALSO = ('ir',)
CE = D + 'chain_extension::'
EC, EF = CE + 'error_code::', CE + 'extension_fn::'
ITEMS = CE + 'ensure_trait_item_invariants'
SCALE = C + 'ensure_impl_scale_codec_traits'
EXTERNAL = C + 'ensure_external_trait_impl'
X = 'ChainExtension'
on1 = lambda K, s, a: [a[1]]
on = lambda K, s, a: [a[1], a[2]]
V5 = lambda K, s, a: K.t(s, a[2]) == vi(K, 'Version', 'V5')
trait_ = lambda K, s, x: tm(K, s, x, 'IsInkTrait', 'trait_item', 'Option<Trait>', ty=X)

@contract(CE + 'diagnostics', crate=A)
def chain_extension_driver(K):
    """all rules of a chain extension run, once, and those of extension functions on every one (ink! 5: also functions)"""
    has = lambda K, s, a: some_(K, s, trait_(K, s, a[1]))
    xdriver(K, K.con.fn, [(GEN, on), (C + 'ensure_trait_invariants', lambda K, s, a: [pay(K, s, trait_(K, s, a[1]))]), (ITEMS, on), (CE + 'ensure_error_code_type_quantity', on1),
                          (CE + 'ensure_no_overlapping_ids', on), (CE + 'ensure_valid_quasi_direct_ink_descendants', on), (EC + 'diagnostics', on)],
            [(CE + 'ensure_extension_arg', on1), ((C + 'ensure_trait', 1), on1)],
            loops=[(lambda K, s, a: acc(K, s, a[1], X, 'extensions', 'Extension'), [EF + 'diagnostics']), (lambda K, s, a: acc(K, s, a[1], X, 'functions', 'Function'), [EF + 'diagnostics'])],
            cond={C + 'ensure_trait_invariants': has, CE + 'ensure_extension_arg': V5})

@contract(EC + 'diagnostics', crate=A)
def error_code_driver(K):
    """all rules of the error code run, once"""
    xdriver(K, K.con.fn, [(EC + 'ensure_no_self_error_code_usage', on1)],
            [(EC + 'ensure_resolvable', on1), (EC + 'ensure_impl_from_status_code', on1), (EC + 'ensure_impl_scale_codec_traits', on)])

@contract(EF + 'diagnostics', crate=A)
def extension_fn_driver(K):
    """all rules of an extension function run, once, on it and its fn"""
    item = lambda K, s, a: tm(K, s, a[1], 'IsInkFn', 'fn_item', 'Option<Fn>', ty='T')
    has = lambda K, s, a: some_(K, s, item(K, s, a))
    fn = lambda K, s, a: [pay(K, s, item(K, s, a))]
    a, fin, srcs = xdriver(K, K.con.fn, [(GEN, on), (C + 'ensure_fn_invariants', fn), (EF + 'ensure_custom_types_impl_scale_codec_traits', on), (QUASI, lambda K, s, a: [a[1], None, a[2]])],
            [((C + 'ensure_fn', 1), on1), ((C + 'ensure_no_self_receiver', 1), fn)], cond={C + 'ensure_fn_invariants': has, C + 'ensure_no_self_receiver': has})
    for o, evs in fin:
        for e in evs:
            if e[0] == 'call' and e[1] == QUASI:
                s = o.st
                k = K.t(s, K.payload(s, e[2][1], 'Arg'))
                K.ob('scope rules: of its kind', s, z3.And(K.is_(s, e[2][1], 'Arg', 'InkAttributeKind'), k == z3.If(V5(K, s, a), vi(K, 'InkArgKind', 'Function'), vi(K, 'InkArgKind', 'Extension'))))

@contract(CE + 'ensure_extension_arg', crate=A)
def extension_arg(K):
    """reported exactly if the argument is missing, at the attribute, else at the declaration"""
    fn = K.con.fn
    XA = 'ChainExtension::extension_arg'
    K.opaque(*QUIET, *UTILS, UT + 'ink_arg_insert_offset_and_affixes', UT + 'suggest_unique_id', XA)
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        arg = K.spec(s, XA, [a[0]], 'Option<InkArg>')
        at = ent(K, s, a[0], 'ink_attr', 'Option<InkAttribute>', T=X)
        K.ob('no id: reported exactly if violated', s, some_(K, s, o.val) == z3.Not(some_(K, s, arg)))
        for has in (True, False):
            b = K.E.branch(s, z3.And(some_(K, s, o.val), some_(K, s, at) == has))
            if b is not None:
                diag_is(K, b, 'no id', ('push', pay(K, b, o.val)), attr_range(K, b, pay(K, b, at)) if has else K.spec(b, UT + 'ink_trait_declaration_range', [a[0]], 'TextRange'))

@contract(ITEMS, crate=A)
def items_only_of_traits(K):
    """the common rules of trait items run on the trait, if it is one"""
    E = K.E
    fn = K.con.fn
    st = start(K, opaque=UTILS + [CE + 'init_unavailable_ids'])
    def common(E, s, func, args, dty):
        s.ghost['log'] = list(s.ghost['log']) + [('call', 'items', (args[1],))]
        yield Outcome(s, UNIT)
    E.contracts[C + 'ensure_trait_item_invariants'] = common
    a = K.args(fn, st)
    for o, evs in trace(K, fn, K.run(fn, a, st))[0]:
        t = trait_(K, o.st, a[1])
        evs = own(evs)
        K.ob('run exactly if it is a trait', o.st, some_(K, o.st, t) == z3.BoolVal(len(evs) == 1))
        for e in evs:
            K.ob('on the trait', o.st, K.eq(o.st, e[2][0], pay(K, o.st, t)))

@contract(ITEMS, crate=A)
def error_code_type(K):
    """an associated type is reported at its name unless it is named ErrorCode, and for its generics, bounds and a missing default"""
    G, B = C + 'ensure_no_generics', C + 'ensure_no_trait_bounds'
    K.opaque((G, 1), (B, 1))
    a, item, fin, srcs = with_handler(K, 4, 'TypeAlias', UTILS + [CE + 'init_unavailable_ids'])
    for o, evs in fin:
        s = o.st
        t = trait_(K, s, a[1])
        name = tm(K, s, item, 'HasName', 'name', 'Option<Name>', ty='TypeAlias')
        nm = pay(K, s, name)
        bad = z3.Or(z3.Not(some_(K, s, name)), K.t(s, text_of(K, s, nm, 'Name')) != z3.StringVal('ErrorCode'))
        ty = am(K, s, item, 'TypeAlias', 'ty', 'Option<Type>')
        g, b = (K.spec(s, q, [item], 'Option<Diagnostic>') for q in (G, B))
        is_t = some_(K, s, t)
        specs = [('no default', z3.And(is_t, z3.Not(some_(K, s, ty))), nrange(K, s, item, 'TypeAlias'))]
        for c, r in ((some_(K, s, name), nrange(K, s, nm, 'Name')), (z3.Not(some_(K, s, name)), K.spec(s, UT + 'ink_trait_declaration_range', [a[1]], 'TextRange'))):
            specs.append(('wrong name', z3.And(is_t, c, bad), r))
        for q, v in (('generics', g), ('bounds', b)):
            d = pay(K, s, v)
            specs.append((q, z3.And(is_t, some_(K, s, v)), K.fld(s, d, 'range')))
            s.assume(K.t(s, K.fld(s, d, 'severity')) == vi(K, 'Severity', 'Error'))
        rules(K, s, evs, specs)

@contract(ITEMS, crate=A)
def extension_method(K):
    """a function of the trait runs the rules of extension functions if it is one, else it is checked as one without id"""
    IA = 'tree::utils::ink_attrs'
    VAL = ITEMS + '::assoc_fn_validator'
    iters(K, IA, 'InkAttribute')
    TE = 'tree::utils::ink_attr_to_entity'
    of = lambda func: [k for k in ('Function', 'Extension') if str(func).rstrip('>').endswith('::' + k)]
    def cast(E, st, func, args, dty):
        k = of(func)
        if not k:
            raise ToolLimit('entity of ' + str(func))
        yield Outcome(st, K.spec(st, TE + k[0], [args[0]], 'Option<' + k[0] + '>'))
    K.E.contracts[TE] = cast
    a, item, fin, srcs = with_handler(K, 3, 'Fn', UTILS + [CE + 'init_unavailable_ids'], (EF + 'diagnostics', VAL))
    attrs = lambda s: spec_seq(K, s, IA, [stx(K, s, item, 'Fn')], 'InkAttribute')
    j = z3.Int('any')
    n = set()
    for o, evs in fin:
        s0 = o.st
        evs = own(evs)
        b = K.E.branch(s0, z3.Not(some_(K, s0, trait_(K, s0, a[1]))))
        if b is not None:
            K.ob('nothing without a trait', b, z3.BoolVal(not evs))
        for v5 in (True, False):
            s = K.E.branch(s0, z3.And(some_(K, s0, trait_(K, s0, a[1])), V5(K, s0, a) if v5 else z3.Not(V5(K, s0, a))))
            if s is None:
                continue
            kind = 'Function' if v5 else 'Extension'
            n.add(kind)
            def as_fn(j):
                at = K.E.symval(s, K.E.nty('InkAttribute'), 'at', [K.t(s, attrs(s)), j])
                return K.spec(s, TE + kind, [at], 'Option<' + kind + '>')
            ln = K.E.seq_len(s, K.t(s, attrs(s)))
            any_ = z3.Exists([j], z3.And(j >= 0, j < ln, some_(K, s, as_fn(j))))
            if len(evs) != 1 or evs[0][0] != 'call':
                K.ob(f'{kind}: one check', s, z3.BoolVal(False), info=str(evs)[:200])
                continue
            K.ob(f'{kind}: the right check', s, any_ == z3.BoolVal(evs[0][1] != VAL))
            if evs[0][1] == VAL:
                K.ob(f'{kind}: on the fn', s, K.eq(s, evs[0][2][0], item))
                K.ob(f'{kind}: for its kind', s, K.t(s, evs[0][2][2]) == vi(K, 'InkArgKind', kind))
            else:
                e = K.t(s, evs[0][2][0])
                first = z3.And(j >= 0, j < ln, some_(K, s, as_fn(j)), K.t(s, pay(K, s, as_fn(j))) == e)
                K.ob(f'{kind}: on the extension function', s, z3.Exists([j], first))
                K.ob(f'{kind}: for the version', s, K.eq(s, evs[0][2][1], a[2]))
    if len(n) != 2:
        raise LostAnchor('versions')

@contract(ITEMS + '::assoc_fn_validator', crate=A)
def without_id(K):
    """a function without id is reported at its declaration (one with the argument of ink! 4 is left to the rule for dropped arguments)"""
    fn = K.con.fn
    IA = 'tree::utils::ink_attrs'
    iters(K, IA, 'InkAttribute')
    K.opaque('tree::utils::ink_arg_by_kind')
    st = start(K, opaque=UTILS + [UT + 'suggest_unique_id_mut'])
    a = K.args(fn, st)
    for o, evs in trace(K, fn, K.run(fn, a, st))[0]:
        s = o.st
        old = K.spec(s, 'tree::utils::ink_arg_by_kind', [stx(K, s, a[1], 'Fn'), z3.IntVal(vi(K, 'InkArgKind', 'Extension'))], 'Option<InkArg>')
        iff(K, s, 'no id', evs, z3.Not(z3.And(K.t(s, a[3]) == vi(K, 'InkArgKind', 'Function'), some_(K, s, old))), None)

@contract(CE + 'ensure_valid_quasi_direct_ink_descendants', crate=A)
def chain_extension_scope(K):
    """the scope rules of chain extensions run on it"""
    a, fin, srcs = xdriver(K, K.con.fn, [(QUASI, lambda K, s, a: [a[1], None, a[2]])], [])
    quasi_kind(K, fin, 'Macro', 'InkMacroKind', 'ChainExtension')

INNER = CE + 'ensure_no_overlapping_ids::ensure_no_overlapping_ids_inner'

@contract(CE + 'ensure_no_overlapping_ids', crate=A)
def ids_of(K):
    """the ids of functions (ink! 5) or extensions (ink! 4) are compared"""
    fn = K.con.fn
    st = start(K, INNER, opaque=[CE + 'init_unavailable_ids'])
    a = K.args(fn, st)
    for o, evs in trace(K, fn, K.run(fn, a, st))[0]:
        s0 = o.st
        evs = own(evs)
        K.ob('once', s0, z3.BoolVal(len(evs) == 1 and evs[0][0] == 'call'))
        for v5 in (True, False):
            s = K.E.branch(s0, V5(K, s0, a) if v5 else z3.Not(V5(K, s0, a)))
            if s is not None and evs:
                x = K.deref(s, evs[0][2][0])
                K.ob('ink! 5: the functions' if v5 else 'ink! 4: the extensions', s, K.eq(s, x, acc(K, s, a[1], X, *(('functions', 'Function') if v5 else ('extensions', 'Extension')))))

@contract(INNER, crate=A)
def overlapping_ids(K):
    """a function is reported exactly if an earlier one has the same id, at the id"""
    E = K.E
    fn = K.con.fn
    st = start(K, opaque=(UT + 'suggest_unique_id_mut', 'MetaValue::text_range', 'InkArg::value', 'InkArg::text_range'))
    a = K.args(fn, st)
    seq = K.deref(st, a[1])
    ID = lambda s, x: tm(K, s, x, 'IsChainExtensionFn', 'id', 'Option<I>', ty='E')
    def value(s, j):
        return ID(s, E.symval(s, E.nty('E'), 'at', [K.t(s, seq), j]))
    def seen(s, k, q):
        j = z3.Int('j!seen')
        v = value(s, j)
        return z3.Exists([j], z3.And(j >= 0, j < k, some_(K, s, v), K.t(s, pay(K, s, v)) == q))
    def inv(E, fr, s, phase):
        c = empty_local_set(K, E, fr)
        v = loop_iter(K, E, fr, s, lambda v: same(E, v.src, K.t(s, seq)))
        if v is None:
            raise ToolLimit('the functions the loop is over')
        k = z3.IntVal(v.started) if v.pos is None else v.pos
        q = z3.Const('q!id', K.t(s, pay(K, s, value(s, z3.IntVal(0)))).sort())
        f = K.has(s, s.cells[c], q) == seen(s, k, q)
        if phase == 'assume':
            s.assume(z3.ForAll([q], f))
        else:
            K.ob(f'exactly the ids seen so far are remembered ({phase})', s, f)
    E.loop_invs[fn] = inv
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    n = 0
    for sr in srcs:
        if not same(E, sr.it.src, K.t(sr.s, seq)):
            raise ToolLimit('source of the functions')
        for s, x, evs in sr.paths:
            n += 1
            i = s.ghost['its'][-1][3]
            id_ = value(s, i)
            dup = z3.And(some_(K, s, id_), seen(s, i, K.t(s, pay(K, s, id_))))
            arg = tm(K, s, x, 'IsChainExtensionFn', 'id_arg', 'Option<InkArg>', ty='E')
            val = K.spec(s, 'InkArg::value', [pay(K, s, arg)], 'Option<MetaValue>')
            has = z3.And(some_(K, s, arg), some_(K, s, val))
            b = E.branch(s, has)
            if b is not None:
                iff(K, b, 'same id as an earlier one', evs, dup, K.spec(b, 'MetaValue::text_range', [pay(K, b, val)], 'TextRange'))
            b = E.branch(s, z3.Not(has))
            if b is not None:
                iff(K, b, 'same id as an earlier one', evs, dup, None)
    if not n:
        raise LostAnchor('functions')
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))

def empty_local_set(K, E, fr):
    s0 = E.loop_entry
    r = [c for i, c in fr.cells.items() for v in [s0.cells.get(c)] if isinstance(v, VMap) and v.base is None and not v.ups]
    if len(r) != 1:
        raise ToolLimit(f'{len(r)} candidates for what the loop has seen')
    return r[0]

@contract(CE + 'ensure_error_code_type_quantity', crate=A)
def one_error_code(K):
    """reported at the declaration if there is no type named ErrorCode, and each further one at its place"""
    E = K.E
    fn = K.con.fn
    E.coll_facts = True
    st = start(K, opaque=UTILS + ['analysis::actions::entity::add_error_code'])
    E.cut_fns.add(fn)
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    def items(s):
        lst = am(K, s, pay(K, s, trait_(K, s, a[1])), 'Trait', 'assoc_item_list', 'Option<AssocItemList>')
        return z3.And(some_(K, s, trait_(K, s, a[1])), some_(K, s, lst)), am(K, s, pay(K, s, lst), 'AssocItemList', 'assoc_items', 'AstChildren<AssocItem>')
    def is_code(s, x):
        t = K.payload(s, x, 'TypeAlias')
        name = tm(K, s, t, 'HasName', 'name', 'Option<Name>', ty='TypeAlias')
        return z3.And(K.is_(s, x, 'TypeAlias', 'AssocItem'), some_(K, s, name), K.t(s, text_of(K, s, pay(K, s, name), 'Name')) == z3.StringVal('ErrorCode'))
    at = lambda s, j: E.symval(s, E.nty('AssocItem'), 'at', [K.t(s, items(s)[1]), j])
    i, j = z3.Int('i!code'), z3.Int('j!code')
    n = 0
    for sr in srcs:
        if not same(E, sr.it.src, K.t(sr.s, items(sr.s)[1])):
            raise ToolLimit('source of the types')
        for s, x, evs in sr.paths:
            n += 1
            k = s.ghost['its'][-1][3] if s.ghost.get('its') else s.ghost['idx']
            further = z3.And(is_code(s, at(s, k)), z3.Exists([j], z3.And(j >= 0, j < k, is_code(s, at(s, j)))))
            iff(K, s, 'further error code', evs, further, nrange(K, s, K.payload(s, x, 'TypeAlias'), 'TypeAlias'))
    for o, evs in fin:
        s = o.st
        c, seq = items(s)
        ln = E.seq_len(s, K.t(s, seq))
        iff(K, s, 'no error code', evs, z3.And(c, z3.Not(z3.Exists([i], z3.And(i >= 0, i < ln, is_code(s, at(s, i)))))), K.spec(s, UT + 'ink_trait_declaration_range', [a[1]], 'TextRange'))
        if not [e for e in evs if e[0] == '*']:
            K.ob('further error codes: none unless looked at', s, z3.Not(z3.And(c, z3.Exists([i, j], z3.And(i >= 0, i < j, j < ln, is_code(s, at(s, i)), is_code(s, at(s, j)))))))
    if not n:
        raise LostAnchor('error codes')

ECODE = 'ChainExtension::error_code'

@contract(EC + 'ensure_resolvable', crate=A)
def resolvable_error_code(K):
    """reported at the type of the error code exactly if it is given but names no item of the file"""
    K.opaque(*QUIET, ECODE, EC + 'error_code_adt', 'resolution::candidate_adt_by_name_or_external_trait_impl', 'resolution::item_path', 'tree::ast_ext::path_from_type')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        ec = K.spec(s, ECODE, [a[0]], 'Option<TypeAlias>')
        ty = am(K, s, pay(K, s, ec), 'TypeAlias', 'ty', 'Option<Type>')
        adt = K.spec(s, EC + 'error_code_adt', [a[0]], 'Option<Adt>')
        option_diag(K, o, 'unknown error code', z3.And(some_(K, s, ec), some_(K, s, ty), z3.Not(some_(K, s, adt))), nrange(K, s, pay(K, s, ty), 'Type'))

PFT = 'tree::ast_ext::path_from_type'
ADT = EC + 'error_code_adt'

@contract(ADT, crate=A)
def error_code_item(K):
    """the item the error code's type names, seen from the chain extension"""
    RI = 'tree::ast_ext::resolve_item'
    K.opaque(ECODE, PFT, RI)
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        ec = K.spec(s, ECODE, [a[0]], 'Option<TypeAlias>')
        ty = am(K, s, pay(K, s, ec), 'TypeAlias', 'ty', 'Option<Type>')
        p = K.spec(s, PFT, [pay(K, s, ty)], 'Option<Path>')
        has = z3.And(some_(K, s, ec), some_(K, s, ty), some_(K, s, p))
        r = K.spec(s, RI, [pay(K, s, p), ent(K, s, a[0], 'syntax', 'SyntaxNode', T=X)], 'Option<Adt>')
        K.ob('none without a path', s, z3.Implies(z3.Not(has), z3.Not(some_(K, s, o.val))))
        b = K.E.branch(s, has)
        if b is not None:
            K.ob('what the path resolves to', b, K.eq(b, o.val, r))

def scale_rule(K):
    """the common rule: a function of the item and the version (the message is not part of the property)"""
    def c(E, st, func, args, dty):
        yield Outcome(st, K.spec(st, 'scale', [args[0], args[2]], 'Option<Diagnostic>'))
    K.E.contracts[SCALE] = c

@contract(EC + 'ensure_impl_scale_codec_traits', crate=A)
def error_code_scale(K):
    """what the common rule says of the error code's item"""
    K.opaque(ADT)
    scale_rule(K)
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        adt = K.spec(s, ADT, [a[0]], 'Option<Adt>')
        K.ob('nothing without an item', s, z3.Implies(z3.Not(some_(K, s, adt)), z3.Not(some_(K, s, o.val))))
        b = K.E.branch(s, some_(K, s, adt))
        if b is not None:
            K.ob('the common rule', b, K.eq(b, o.val, K.spec(b, 'scale', [pay(K, b, adt), a[1]], 'Option<Diagnostic>')))

@contract(EC + 'ensure_no_self_error_code_usage', crate=A)
def self_error_code(K):
    """every path Self::ErrorCode is reported there, nothing else"""
    PS = 'tree::ast_ext::path_to_string'
    K.opaque(*QUIET, ADT, PS, 'resolution::item_path')
    fn = K.con.fn
    st = start(K)
    K.E.cut_fns.add(fn)
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    def per(s, x, evs):
        p = tmcast(K, s, x, 'Path')
        bad = z3.And(some_(K, s, p), K.t(s, K.spec(s, PS, [pay(K, s, p)], 'String')) == z3.StringVal('Self::ErrorCode'))
        iff(K, s, 'Self::ErrorCode', evs, bad, nrange(K, s, pay(K, s, p), 'Path'))
    elems_of(K, fin, srcs, lambda s: raw(K, s, 'rowan::api::SyntaxNode::descendants', [ent(K, s, a[1], 'syntax', 'SyntaxNode', T=X)]), 'descendants', per)
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))

def can_cast(K, s, node, ty):
    """whether a node casts is said by its kind"""
    n = f"('as', '{ty}', 'AstNode')::can_cast"
    for k, f in K.E.funcs.items():
        if k[0] == 'ext:' + n:
            kind = [g for q, g in K.E.funcs.items() if q[0] == 'ext:rowan::api::SyntaxNode::kind']
            for g in kind:
                if f.arity() == 1 and f.domain(0) == g.range():
                    s.assume(some_(K, s, tmcast(K, s, node, ty)) == f(g(K.t(s, node))))

def tmcast(K, s, node, ty):
    n = known(K, lambda n: n.split('@')[0] == f"('as', '{ty}', 'AstNode')::cast", f"('as', '{ty}', 'AstNode')::cast")
    return ext(K, s, n, [node], f'Option<{ty}>')

@contract(EC + 'ensure_impl_from_status_code', crate=A)
def from_status_code(K):
    """the error code's item has to implement FromStatusCode of the ink! environment, anywhere in the file"""
    E = K.E
    K.opaque(ADT)
    def rule(E, st, func, args, dty):
        st.ghost['asked'] = list(args)
        yield Outcome(st, K.spec(st, 'external', [args[0]], 'Option<Diagnostic>'))
    E.contracts[EXTERNAL] = rule
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    n = 0
    for o in K.run(fn, a, st):
        s = o.st
        adt = K.spec(s, ADT, [a[0]], 'Option<Adt>')
        name = tm(K, s, pay(K, s, adt), 'HasName', 'name', 'Option<Name>', ty='Adt')
        q = s.ghost.get('asked')
        ancestors = lambda s: raw(K, s, 'rowan::api::SyntaxNode::ancestors', [ent(K, s, a[0], 'syntax', 'SyntaxNode', T=X)])
        if q is None:
            if any(k[0] == 'ext:rowan::api::SyntaxNode::ancestors' for k in E.funcs):
                s.assume(E.seq_len(s, ancestors(s)) > 0)  # the ancestors of a node begin with itself
            K.ob('asked whenever there is a named item', s, z3.Or(z3.Not(some_(K, s, adt)), z3.Not(some_(K, s, name))))
            K.ob('nothing otherwise', s, z3.Not(some_(K, s, o.val)))
            continue
        n += 1
        K.ob('of the item', s, z3.And(some_(K, s, adt), K.eq(s, q[0], pay(K, s, adt))))
        K.ob('its answer', s, K.eq(s, o.val, K.spec(s, 'external', [pay(K, s, adt)], 'Option<Diagnostic>')))
        info = q[1]
        K.ob('the trait', s, K.t(s, info.fields[0]) == z3.StringVal('FromStatusCode'))
        quals = K.deref(s, info.fields[1])
        items = getattr(quals, 'items', None)
        if items is None:
            raise ToolLimit('qualifiers')
        K.ob('of the ink! environment', s, z3.And([z3.BoolVal(len(items) == 2)] + [z3.Or([K.t(s, x) == z3.StringVal(v) for x in items]) for v in ('ink::env::chain_extension', 'ink_env::chain_extension')]))
        anc = ancestors(s)
        K.ob('anywhere in the file', s, K.t(s, info.fields[2]) == K.t(s, E.symval(s, E.nty('SyntaxNode'), 'at', [anc, z3.simplify(E.seq_len(s, anc) - 1)])))
    if not n:
        raise LostAnchor('FromStatusCode')

BY_NAME = 'resolution::external_trait_impl_by_name'
DECL = UT + 'ast_item_declaration_range'

def at_item(K, s0, what, rng, adt):
    """the declaration of the item (its whole range if it has none)"""
    for v in ('Enum', 'Struct', 'Union'):
        s = K.E.branch(s0, K.is_(s0, adt, v, 'Adt'))
        if s is None:
            continue
        d = K.spec(s, DECL, [VAdt('Item', v, {0: K.payload(s, adt, v)})], 'Option<TextRange>')
        K.ob(f'{what}: at the {v.lower()}', s, z3.And(z3.Implies(some_(K, s, d), K.eq(s, rng, pay(K, s, d))), z3.Implies(z3.Not(some_(K, s, d)), K.eq(s, rng, nrange(K, s, adt, 'Adt')))))

@contract(EXTERNAL, crate=A)
def external_impl(K):
    """reported at its declaration exactly if the item has a name and no implementation of the trait is found for it"""
    K.opaque(*QUIET, *UTILS, BY_NAME, UT + 'item_indenting', UT + 'apply_indenting')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        name = tm(K, s, a[0], 'HasName', 'name', 'Option<Name>', ty='Adt')
        f = [K.fld(s, a[1], str(i)) if not isinstance(a[1], VAdt) else a[1].fields[i] for i in range(3)]
        im = K.spec(s, BY_NAME, [text_of(K, s, pay(K, s, name), 'Name'), *f], 'Option<Impl>')
        option_diag(K, o, 'no implementation', z3.And(some_(K, s, name), z3.Not(some_(K, s, im))), None)
        b = K.E.branch(s, some_(K, s, o.val))
        if b is not None:
            at_item(K, b, 'no implementation', K.fld(b, pay(K, b, o.val), 'range'), a[0])

@contract(BY_NAME, crate=A)
def impl_by_name(K):
    """found exactly if an implementation of the trait in the tree is for a type of that name"""
    E = K.E
    IMPLS = 'resolution::external_trait_impls'
    iters(K, IMPLS, 'Impl')
    K.opaque(PFT, 'resolution::is_path_target')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        seq = spec_seq(K, s, IMPLS, [a[1], a[2], a[3]], 'Impl')
        j = z3.Int('j!impl')
        x = E.symval(s, E.nty('Impl'), 'at', [K.t(s, seq), j])
        ty = am(K, s, x, 'Impl', 'self_ty', 'Option<Type>')
        p = K.spec(s, PFT, [pay(K, s, ty)], 'Option<Path>')
        hit = z3.And(j >= 0, j < E.seq_len(s, K.t(s, seq)), some_(K, s, ty), some_(K, s, p), K.t(s, K.spec(s, 'resolution::is_path_target', [a[0], pay(K, s, p)], 'bool')))
        K.ob('found exactly if there is one', s, some_(K, s, o.val) == z3.Exists([j], hit))
        b = E.branch(s, some_(K, s, o.val))
        if b is not None:
            K.ob('such a one', b, z3.Exists([j], z3.And(hit, K.t(b, pay(K, b, o.val)) == K.t(b, x))))

@contract('resolution::external_trait_impls', crate=A)
def impls_of(K):
    """the implementations in the tree whose trait is the external item of that name"""
    E = K.E
    IS = 'resolution::is_external_crate_item'
    K.opaque(PFT, IS)
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        it = K.elems(s, o.val)
        K.ob('all nodes of the tree', s, z3.BoolVal(same(E, it.src, raw(K, s, 'rowan::api::SyntaxNode::descendants', [a[2]]))))
        n = 0
        for s2, x, kept, val in E.iter_elem(E, s, it):
            n += 1
            im = tmcast(K, s2, x, 'Impl')
            can_cast(K, s2, x, 'Impl')
            t = am(K, s2, pay(K, s2, im), 'Impl', 'trait_', 'Option<Type>')
            p = K.spec(s2, PFT, [pay(K, s2, t)], 'Option<Path>')
            want = z3.And(some_(K, s2, im), some_(K, s2, t), some_(K, s2, p), K.t(s2, K.spec(s2, IS, [a[0], pay(K, s2, p), a[1], stx(K, s2, pay(K, s2, im), 'Impl')], 'bool')))
            K.ob('exactly those', s2, want == z3.BoolVal(kept))
            if kept:
                K.ob('the implementation', s2, K.eq(s2, val, pay(K, s2, im)))
        if not n:
            raise LostAnchor('implementations')

@contract(ECODE, crate='ir')
def error_code_of(K):
    """the first associated type named ErrorCode"""
    E = K.E
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        t = trait_(K, s, a[0])
        lst = am(K, s, pay(K, s, t), 'Trait', 'assoc_item_list', 'Option<AssocItemList>')
        seq = am(K, s, pay(K, s, lst), 'AssocItemList', 'assoc_items', 'AstChildren<AssocItem>')
        def is_code(j):
            x = E.symval(s, E.nty('AssocItem'), 'at', [K.t(s, seq), j])
            ty = K.payload(s, x, 'TypeAlias')
            name = tm(K, s, ty, 'HasName', 'name', 'Option<Name>', ty='TypeAlias')
            return z3.And(K.is_(s, x, 'TypeAlias', 'AssocItem'), some_(K, s, name), K.t(s, text_of(K, s, pay(K, s, name), 'Name')) == z3.StringVal('ErrorCode')), ty
        i, j = z3.Int('i!code'), z3.Int('j!code')
        ln = E.seq_len(s, K.t(s, seq))
        any_ = z3.And(some_(K, s, t), some_(K, s, lst), z3.Exists([i], z3.And(i >= 0, i < ln, is_code(i)[0])))
        K.ob('there exactly if there is one', s, some_(K, s, o.val) == any_)
        b = E.branch(s, some_(K, s, o.val))
        if b is not None:
            K.ob('the first', b, z3.Exists([i], z3.And(i >= 0, i < ln, is_code(i)[0], K.t(b, pay(K, b, o.val)) == K.t(b, is_code(i)[1]), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.Not(is_code(j)[0]))))))

IS = 'resolution::is_external_crate_item'

def codec(K, ver, var, split=None):
    """reported at the item exactly if one of the codec traits is neither derived (ink! 5: nor listed by scale_derive) nor implemented in the file.
    Which paths the derive attributes list is left open here (the harness decides it on real items)"""
    E = K.E
    IA = 'tree::utils::ink_attrs'
    iters(K, IA, 'InkAttribute')
    K.opaque(*QUIET, *UTILS, BY_NAME, UT + 'token_tree_to_non_delimited_meta_string', IS, 'tree::ast_ext::path_from_str', 'tree::ast_ext::closest_non_trivia_token', UT + 'item_indenting', '<InkArgKind as ToString>::to_string')
    def derived(st, v, f, m):
        if not (m == 'any' and isinstance(v, (VSymIter, VOpqIter)) and any(k in ('flat_map', 'chain') for k, _ in v.stages)):
            return None
        x = E.symval(st, E.nty('Path'), 'derived path', [])
        res = list(E.call_value(st.fork(), f, [x], 'bool'))
        if len(res) != 1 or not is_term(res[0].val) or res[0].val.decl().name() != 'spec:' + IS or not res[0].val.arg(1).eq(K.t(st, x)):
            return None
        t = res[0].val
        return [Outcome(st, E.uf('derived', [t.arg(i) for i in (0, 2, 3)], z3.BoolSort()))]
    E.any_hook = derived
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    st.assume(K.t(st, a[2]) == vi(K, 'Version', ver))
    st.assume(K.is_(st, a[0], var, 'Adt'))
    E.max_paths = 40000
    if split is not None:
        st.assume(some_(K, st, tm(K, st, a[0], 'HasName', 'name', 'Option<Name>', ty='Adt')) == split)
    syn = stx(K, st, a[0], 'Adt')
    attrs = spec_seq(K, st, IA, [syn], 'InkAttribute')
    i, j = z3.Int('i!attr'), z3.Int('j!attr')
    TRAITS = (('Encode', ('scale', 'ink::scale', 'parity_scale_codec'), 'Encode'), ('Decode', ('scale', 'ink::scale', 'parity_scale_codec'), 'Decode'), ('TypeInfo', ('scale_info', 'ink::scale_info'), 'TypeInfo'))
    for o in K.run(fn, a, st):
        s = o.st
        ln = E.seq_len(s, K.t(s, attrs))
        at = lambda q: E.symval(s, E.nty('InkAttribute'), 'at', [K.t(s, attrs), q])
        def is_sd(q):
            k = K.fld(s, at(q), 'kind')
            return z3.And(K.is_(s, k, 'Macro', 'InkAttributeKind'), K.t(s, K.payload(s, k, 'Macro')) == vi(K, 'InkMacroKind', 'ScaleDerive'))
        def listed(q, kind):
            args = K.fld(s, at(q), 'args')
            arg = E.symval(s, E.nty('InkArg'), 'at', [K.t(s, args), j])
            return z3.Exists([j], z3.And(j >= 0, j < E.seq_len(s, K.t(s, args)), K.t(s, K.fld(s, arg, 'kind')) == vi(K, 'InkArgKind', kind)))
        first = lambda q: z3.And(q >= 0, q < ln, is_sd(q), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q), z3.Not(is_sd(j)))))
        name = tm(K, s, a[0], 'HasName', 'name', 'Option<Name>', ty='Adt')
        anc = raw(K, s, 'rowan::api::SyntaxNode::ancestors', [syn])
        s.assume(E.seq_len(s, anc) > 0)
        root = E.symval(s, E.nty('SyntaxNode'), 'at', [anc, z3.simplify(E.seq_len(s, anc) - 1)])
        missing = []
        for tn, quals, kind in TRAITS:
            q = E.term(s, VSeq([z3.StringVal(x) for x in quals], 'str'))
            der = E.uf('derived', [z3.StringVal(tn), q, K.t(s, syn)], z3.BoolSort())
            imp = z3.And(some_(K, s, name), some_(K, s, K.spec(s, BY_NAME, [text_of(K, s, pay(K, s, name), 'Name'), z3.StringVal(tn), q, root], 'Option<Impl>')))
            v5 = z3.Exists([i], z3.And(first(i), listed(i, kind))) if ver == 'V5' else z3.BoolVal(False)
            missing.append(z3.Not(z3.Or(der, imp, v5)))
        option_diag(K, o, 'codec traits', z3.Or(missing), None)
        b = E.branch(s, some_(K, s, o.val))
        if b is not None:
            at_item(K, b, 'codec traits', K.fld(b, pay(K, b, o.val), 'range'), a[0])

for ver in ('V4', 'V5'):
    for var in ('Enum', 'Struct', 'Union'):
        for split in (True, False):
            def f(K, ver=ver, var=var, split=split):
                codec(K, ver, var, split)
            f.__name__, f.__doc__ = f'codec_{ver}_{var}_{"named" if split else "unnamed"}'.lower(), codec.__doc__
            contract(SCALE, crate=A)(f)

ECT, ERT = EF + 'extract_custom_types', EF + 'extract_resolvable_custom_types'

INNER_TYPES = ('ArrayType', 'ParenType', 'PtrType', 'RefType', 'SliceType')

@contract(ECT, crate=A)
def named_types(K):
    """the paths a type is made of: itself, those inside arrays, references, pointers, slices and parentheses. (Tuples, whose fields'
    paths are put one after the other, are decided by the harness: bounded.)"""
    E = K.E
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    K.opaque(ECT)
    ty = a[0]
    st.assume(z3.Not(K.is_(st, ty, 'TupleType', 'Type')))
    for o in K.run(fn, a, st):
        s = o.st
        for v in INNER_TYPES:
            b = E.branch(s, K.is_(s, ty, v, 'Type'))
            if b is None:
                continue
            inner = am(K, b, K.payload(b, ty, v), v, 'ty', 'Option<Type>')
            there = some_(K, b, inner)
            n = E.branch(b, z3.Not(there))
            if n is not None:
                K.ob(v + ': nothing inside', n, z3.Not(some_(K, n, o.val)))
            b = E.branch(b, there)
            if b is not None:
                K.ob(v + ': what is inside', b, K.t(b, o.val) == K.t(b, K.spec(b, ECT, [pay(K, b, inner)], 'Option<Vec<Path>>')))
        b = E.branch(s, K.is_(s, ty, 'PathType', 'Type'))
        if b is not None:
            path = am(K, b, K.payload(b, ty, 'PathType'), 'PathType', 'path', 'Option<Path>')
            K.ob('path: there exactly if there is one', b, some_(K, b, o.val) == some_(K, b, path))
            c = E.branch(b, some_(K, b, o.val))
            if c is not None:
                v = pay(K, c, o.val)
                K.ob('path: only itself', c, E.seq_len(c, K.t(c, v)) == 1)
                K.ob('path: itself', c, K.t(c, E.symval(c, E.nty('Path'), 'at', [K.t(c, v), z3.IntVal(0)])) == K.t(c, pay(K, c, path)))
        b = E.branch(s, z3.Not(z3.Or([K.is_(s, ty, v, 'Type') for v in INNER_TYPES + ('PathType',)])))
        if b is not None:
            K.ob('others: no path', b, z3.Not(some_(K, b, o.val)))
