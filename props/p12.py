"""P12: the structure rules of a contract."""
import z3
import kit
from kit import *
from diaglib import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['rust-analyzer\'s tree (children, parent, ranges) is a function of the source text']
A = 'ana'
ALSO = ('ir',)
C = D + 'common::'
CT = D + 'contract::'
PI = '<_ as HasInkImplParent>::parent_impl_item'
DECL = UT + 'contract_declaration_range'
CLOSEST = 'tree::utils::ink_closest_descendants'

@contract(C + 'ensure_at_least_one_item', crate=A)
def at_least_one(K):
    """the given diagnostic exactly if there is no item"""
    st = State()
    a = K.args(K.con.fn, st)
    for o in K.run(K.con.fn, a, st):
        s = o.st
        K.ob('exactly if empty', s, K.is_(s, o.val, 'Some', 'Option') == (K.E.seq_len(s, K.t(s, a[0])) == 0))
        for s2, p in K.some(s, o.val):
            if p is not None:
                K.ob('the given diagnostic', s2, K.eq(s2, p[0], a[1]))

@contract(C + 'ensure_at_most_one_item', crate=A)
def at_most_one(K):
    """every item but the first is reported, over its whole range and with the asked severity"""
    E = K.E
    fn = K.con.fn
    st = start(K)
    a = K.args(fn, st)
    outs = K.run(fn, a, st)
    fin, srcs = trace(K, fn, outs)
    n = 0
    for sr in srcs:
        off = offset(K, sr.s, sr.it.src, a[1]) if isinstance(sr.it, VSymIter) else None
        if off is None or off > 1:
            raise ToolLimit('source of the items')
        for s, x, evs in sr.paths:
            n += 1
            pos = s.ghost['idx'] + off
            iff(K, s, 'every item but the first', evs, pos >= 1, node_range(K, s, ent(K, s, x, 'syntax', 'SyntaxNode')), a[3])
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))
        if not any(e[0] == '*' for e in evs):
            K.ob('without a search at most one item', o.st, E.seq_len(o.st, K.t(o.st, a[1])) <= 1)
    if not n:
        raise LostAnchor('items')

@contract(C + 'ensure_exactly_one_item', crate=A)
def exactly_one(K):
    """the given diagnostic if there is no item, every item but the first otherwise"""
    E = K.E
    fn = K.con.fn
    M = C + 'ensure_at_most_one_item'
    st = start(K, M)
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        s = o.st
        n = E.seq_len(s, K.t(s, a[1]))
        push = [e for e in evs if e[0] == 'push']
        call = [e for e in evs if e[0] == 'call']
        K.ob('missing: reported exactly if there is none', s, z3.BoolVal(len(push) == 1) == (n == 0))
        for e in push:
            K.ob('missing: the given diagnostic', s, K.eq(s, e[1], a[2]))
        K.ob('too many: checked if there is more than one', s, z3.Implies(n > 1, z3.BoolVal(len(call) == 1)))
        for e in call:
            K.ob('too many: of the items, as asked', s, z3.And(K.eq(s, e[2][0], a[1]), K.eq(s, e[2][2], a[4])))

@contract(C + 'ensure_contract_parent', crate=A)
def contract_parent(K):
    """reported over the whole item exactly if the enclosing item is not a contract"""
    fn = K.con.fn
    K.opaque(*QUIET, 'tree::utils::ink_parent', 'tree::utils::ink_ancestors', UT + 'item_insert_offset_by_scope_name', UT + 'item_children_indenting')
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        node = ent(K, s, a[0], 'syntax', 'SyntaxNode')
        par = K.spec(s, 'tree::utils::ink_parent', [node], 'Option<Contract>')
        option_diag(K, o, 'outside the root of a contract', z3.Not(K.is_(s, par, 'Some', 'Option')), lambda s: node_range(K, s, node))

@contract(C + 'ensure_impl_parent', crate=A)
def impl_parent(K):
    """reported over the whole item exactly if the enclosing item is not an impl"""
    fn = K.con.fn
    K.opaque(*QUIET, 'tree::utils::ink_ancestors', UT + 'assoc_item_insert_offset_end', UT + 'item_children_indenting', UT + 'callable_insert_offset_indent_and_affixes',
             'tree::ast_ext::closest_ancestor_ast_type', PI)
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        node = ent(K, s, a[0], 'syntax', 'SyntaxNode')
        par = K.spec(s, PI, [a[0]], 'Option<Impl>')
        option_diag(K, o, 'outside an impl', z3.Not(K.is_(s, par, 'Some', 'Option')), lambda s: node_range(K, s, node))

@contract(CT + 'ensure_inline_module', crate=A)
def inline_module(K):
    """reported at the declaration exactly if the contract is not a mod with a body"""
    fn = K.con.fn
    K.opaque(*QUIET, DECL)
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        m = K.fld(s, a[0], 'ast')
        il = ext(K, s, 'ink_analyzer_ir::ast::Module::item_list', [K.payload(s, m, 'Some')], 'Option<ItemList>')
        option_diag(K, o, 'not an inline mod', z3.Not(z3.And(K.is_(s, m, 'Some', 'Option'), K.is_(s, il, 'Some', 'Option'))), lambda s: K.spec(s, DECL, [a[0]], 'TextRange'))

def contains(fn, field, what, adder):
    @contract(CT + fn, crate=A)
    def c(K):
        """reported at the declaration exactly if the contract has none"""
        K.opaque(DECL, 'analysis::actions::entity::' + adder)
        st = State()
        a = K.args(CT + fn, st)
        for o in K.run(CT + fn, a, st):
            s = o.st
            n = K.E.seq_len(s, acc(K, s, a[0], 'Contract', field, what.capitalize()))
            option_diag(K, o, f'no {what}', n == 0, lambda s: K.spec(s, DECL, [a[0]], 'TextRange'))
    CONTRACTS[-1].name = fn
contains('ensure_contains_constructor', 'constructors', 'constructor', 'add_constructor_to_contract')
contains('ensure_contains_message', 'messages', 'message', 'add_message_to_contract')

@contract(CT + 'ensure_storage_quantity', crate=A)
def storage_quantity(K):
    """exactly one storage among those closest below the contract; missing: an error at the declaration, further ones: errors"""
    fn = K.con.fn
    M = C + 'ensure_exactly_one_item'
    st = start(K, M, opaque=(DECL, 'analysis::actions::entity::add_storage'))
    iters(K, CLOSEST, 'Storage')
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        s = o.st
        K.ob('checked once', s, z3.BoolVal(len(evs) == 1 and evs[0][:2] == ('call', M)))
        if len(evs) == 1:
            items, d, msg, sev = evs[0][2]
            it = K.elems(s, items)
            K.ob('the storages closest below', s, z3.And(it.src == spec_seq(K, s, CLOSEST, [ent(K, s, a[1], 'syntax', 'SyntaxNode', T='Contract')], 'Storage'), z3.BoolVal(not it.stages)))
            diag_is(K, s, 'missing storage', ('push', d), K.spec(s, DECL, [a[1]], 'TextRange'))
            K.ob('further ones are errors', s, K.t(s, sev) == vi(K, 'Severity', 'Error'))

@contract(CT + 'get_composed_selectors', crate=A)
def composed(K):
    """the composed selector of every callable that has one, with its node and selector argument, in order"""
    fn = K.con.fn
    st = State()
    K.opaque('<_ as IsInkCallable>::composed_selector', '<_ as IsInkCallable>::selector_arg')
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        it = K.elems(s, o.val)
        K.ob('over the items', s, it.src == K.t(s, a[0]))
        n = 0
        for s2, x, kept, val in K.E.iter_elem(K.E, s, it):
            n += 1
            sel = K.spec(s2, '<_ as IsInkCallable>::composed_selector', [x], 'Option<Selector>')
            K.ob('exactly the callables with a selector', s2, z3.BoolVal(kept) == K.is_(s2, sel, 'Some', 'Option'))
            if kept:
                val = K.deref(s2, val)
                K.ob('its selector', s2, K.eq(s2, val.fields[0], K.payload(s2, sel, 'Some')))
                K.ob('its node', s2, K.eq(s2, val.fields[1], ent(K, s2, x, 'syntax', 'SyntaxNode')))
                K.ob('its selector argument', s2, K.eq(s2, val.fields[2], K.spec(s2, '<_ as IsInkCallable>::selector_arg', [x], 'Option<SelectorArg>')))
        if n < 2:
            raise LostAnchor('selectors')

def empty_local(K, E, fr, ty):
    """the local of that type that is empty/false when the loop starts"""
    s0 = E.loop_entry
    r = []
    named = {int(m.group(1)) for n, p in fr.body.debug for m in [__import__('re').match(r'^_(\d+)$', p)] if m}
    for i, c in fr.cells.items():
        v = s0.cells.get(c)
        if ty == 'set' and isinstance(v, VMap) and v.base is None and not v.ups and v.kty == 'u32':
            r.append(c)
        if ty == 'bool' and i in named and is_term(v) and z3.is_false(v):
            r.append(c)
    if len(r) != 1:
        raise ToolLimit(f'{len(r)} candidates for what the loop has seen')
    return r[0]

def loop_iter(K, E, fr, s, ok):
    r = [v for v in (s.cells.get(c) for c in fr.cells.values()) if isinstance(v, VSymIter) and not v.stages and ok(v)]
    return ([v for v in r if v.pos is not None] or r or [None])[0]

COMPOSED = CT + 'get_composed_selectors'
TUP = '(Selector,SyntaxNode,Option<SelectorArg>)'

@contract(CT + 'ensure_no_overlapping_selectors', crate=A)
def overlapping(K):
    """per group (constructors, messages): a callable is reported exactly if an earlier one of the group has the same selector, at its selector value,
    else at its name, else at its declaration"""
    E = K.E
    fn = K.con.fn
    st = start(K, opaque=(UT + 'suggest_unique_id_mut', 'Selector::into_be_u32', UT + 'ast_item_declaration_range', '<_ as IsInkCallable>::composed_selector', 'MetaValue::text_range', 'InkArg::value'))
    def comp(E, s, func, args, dty):
        yield Outcome(s, E.symval(s, E.nty('Vec<' + TUP + '>'), 'spec:' + COMPOSED, [E.term(s, K.deref(s, args[0]))]))
    E.contracts[COMPOSED] = comp
    a = K.args(fn, st)
    groups = [acc(K, st, a[1], 'Contract', 'constructors', 'Constructor'), acc(K, st, a[1], 'Contract', 'messages', 'Message')]
    seqs = [E.symval(st, E.nty('Vec<' + TUP + '>'), 'spec:' + COMPOSED, [K.t(st, g)]) for g in groups]
    def value(s, seq, j):
        x = E.symval(s, E.nty(TUP), 'at', [seq, j])
        return K.spec(s, 'Selector::into_be_u32', [E.get_field(s, x, None, 0, 'Selector')], 'u32')
    def seen(s, seq, k, q):
        j = z3.Int('j!seen')
        return z3.Exists([j], z3.And(j >= 0, j < k, value(s, seq, j) == q))
    def inv(E, fr, s, phase):
        c = empty_local(K, E, fr, 'set')
        v = loop_iter(K, E, fr, s, lambda v: any(same(E, v.src, q) for q in seqs))
        if v is None:
            raise ToolLimit('the selectors the loop is over')
        k = z3.IntVal(v.started) if v.pos is None else v.pos
        q = z3.Int('q!sel')
        f = K.has(s, s.cells[c], q) == seen(s, v.src, k, q)
        if phase == 'assume':
            s.assume(z3.ForAll([q], f))
        else:
            K.ob(f'exactly the selectors seen so far are remembered ({phase})', s, f)
    E.loop_invs[fn] = inv
    outs = K.run(fn, a, st)
    fin, srcs = trace(K, fn, outs)
    hit = set()
    for sr in srcs:
        g = [i for i, q in enumerate(seqs) if same(E, sr.it.src, q)]
        if not g:
            raise ToolLimit('source of the selectors')
        hit.add(g[0])
        for s, x, evs in sr.paths:
            i = s.ghost['idx'] if False else s.ghost['its'][-1][3]
            dup = seen(s, seqs[g[0]], i, value(s, seqs[g[0]], i))
            arg = E.get_field(s, x, None, 2, 'Option<SelectorArg>')
            node = E.get_field(s, x, None, 1, 'SyntaxNode')
            val = K.spec(s, 'InkArg::value', [K.fld(s, K.payload(s, arg, 'Some'), 'arg')], 'Option<MetaValue>')
            hasv = z3.And(K.is_(s, arg, 'Some', 'Option'), K.is_(s, val, 'Some', 'Option'))
            vr = K.spec(s, 'MetaValue::text_range', [K.payload(s, val, 'Some')], 'TextRange')
            f = ext(K, s, "('as', 'Fn', 'AstNode')::cast", [node], 'Option<Fn>')
            nm = ext(K, s, "('as', 'Fn', 'HasName')::name", [K.payload(s, f, 'Some')], 'Option<Name>')
            nr = node_range(K, s, ext(K, s, "('as', 'Name', 'AstNode')::syntax", [K.payload(s, nm, 'Some')], 'SyntaxNode'))
            hasn = z3.And(K.is_(s, f, 'Some', 'Option'), K.is_(s, nm, 'Some', 'Option'))
            for s2, c, r in ((s, hasv, vr), (s, z3.And(z3.Not(hasv), hasn), nr)):
                b = E.branch(s, c)
                if b is not None:
                    iff(K, b, 'same selector as an earlier one', evs, dup, r)
            b = E.branch(s, z3.Not(z3.Or(hasv, hasn)))
            if b is not None:
                iff(K, b, 'same selector as an earlier one', evs, dup, None)
    for i, n in enumerate(('constructors', 'messages')):
        K.ob(f'all {n} are looked at', st, z3.BoolVal(i in hit))
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))

SARGS = CT + 'get_selector_args'
WILD = 'SelectorArg::is_wildcard'
COMPL = 'SelectorArg::is_wildcard_complement'
BYKIND = '<_ as InkEntity>::tree'

@contract(CT + 'get_selector_args', crate=A)
def selector_args(K):
    """the selector arguments of every callable, in order"""
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    K.opaque('SelectorArg::cast')
    iters(K, 'InkTree::ink_args_by_kind', 'InkArg')
    for o in K.run(fn, a, st):
        s = o.st
        it = K.elems(s, o.val)
        K.ob('over the items', s, it.src == K.t(s, a[0]))
        n = 0
        for s2, x, kept, val in K.E.iter_elem(K.E, s, it):
            if s2.ghost.get('inner_none'):
                continue
            n += 1
            args = spec_seq(K, s2, 'InkTree::ink_args_by_kind', [ent(K, s2, x, 'tree', 'InkTree'), z3.IntVal(vi(K, 'InkArgKind', 'Selector'))], 'InkArg')
            y = K.E.symval(s2, K.E.nty('InkArg'), 'at', [args, s2.ghost['idx']])
            c = K.spec(s2, 'SelectorArg::cast', [y], 'Option<SelectorArg>')
            K.ob('exactly its selector arguments', s2, z3.BoolVal(kept) == K.is_(s2, c, 'Some', 'Option'))
            if kept:
                K.ob('the argument', s2, K.eq(s2, val, K.payload(s2, c, 'Some')))
        if n < 2:
            raise LostAnchor('selector arguments')

@contract(CT + 'ensure_at_most_one_wildcard_selector', crate=A)
def wildcards(K):
    """per group (constructors, messages): a wildcard selector is reported, at the argument, exactly if an earlier argument of the group is a wildcard"""
    E = K.E
    fn = K.con.fn
    st = start(K, opaque=(UT + 'ink_arg_and_delimiter_removal_range', WILD, 'SelectorArg::text_range'))
    def comp(E, s, func, args, dty):
        yield Outcome(s, spec_seq(K, s, SARGS, args, 'SelectorArg'))
    E.contracts[SARGS] = comp
    a = K.args(fn, st)
    groups = [acc(K, st, a[1], 'Contract', 'constructors', 'Constructor'), acc(K, st, a[1], 'Contract', 'messages', 'Message')]
    seqs = [spec_seq(K, st, SARGS, [g], 'SelectorArg') for g in groups]
    def wild(s, seq, j):
        return K.spec(s, WILD, [E.symval(s, E.nty('SelectorArg'), 'at', [seq, j])], 'bool')
    def seen(s, seq, k):
        j = z3.Int('j!seen')
        return z3.Exists([j], z3.And(j >= 0, j < k, wild(s, seq, j)))
    def inv(E, fr, s, phase):
        c = empty_local(K, E, fr, 'bool')
        v = loop_iter(K, E, fr, s, lambda v: any(same(E, v.src, q) for q in seqs))
        if v is None:
            raise ToolLimit('the arguments the loop is over')
        f = s.cells[c] == seen(s, v.src, z3.IntVal(v.started) if v.pos is None else v.pos)
        if phase == 'assume':
            s.assume(f)
        else:
            K.ob(f'remembered exactly if there was a wildcard ({phase})', s, f)
    E.loop_invs[fn] = inv
    outs = K.run(fn, a, st)
    fin, srcs = trace(K, fn, outs)
    hit = set()
    for sr in srcs:
        g = [i for i, q in enumerate(seqs) if same(E, sr.it.src, q)]
        if not g:
            raise ToolLimit('source of the arguments')
        hit.add(g[0])
        for s, x, evs in sr.paths:
            i = s.ghost['its'][-1][3]
            iff(K, s, 'a further wildcard', evs, z3.And(wild(s, seqs[g[0]], i), seen(s, seqs[g[0]], i)), K.spec(s, 'SelectorArg::text_range', [x], 'TextRange'))
    for i, n in enumerate(('constructors', 'messages')):
        K.ob(f'all {n} are looked at', st, z3.BoolVal(i in hit))
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))

@contract(CT + 'ensure_parent_contract', crate=A)
def parent_contract(K):
    """reported over the whole item exactly if the enclosing item is not this contract"""
    fn = K.con.fn
    K.opaque(*QUIET, 'tree::utils::ink_parent', UT + 'item_insert_offset_by_scope_name', UT + 'item_children_indenting')
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        node = ent(K, s, a[1], 'syntax', 'SyntaxNode')
        par = K.spec(s, 'tree::utils::ink_parent', [node], 'Option<Contract>')
        me = ent(K, s, a[0], 'syntax', 'SyntaxNode', T='Contract')
        same_ = K.eq(s, ent(K, s, K.payload(s, par, 'Some'), 'syntax', 'SyntaxNode', T='Contract'), me)
        option_diag(K, o, 'outside the root of this contract', z3.Not(z3.And(K.is_(s, par, 'Some', 'Option'), same_)), lambda s: node_range(K, s, node))

@contract(CT + 'ensure_root_items', crate=A)
def root_items(K):
    """every storage closest below, every event and every impl is checked against this contract, and what the check gives is reported"""
    E = K.E
    fn = K.con.fn
    st = start(K, opaque=((CT + 'ensure_parent_contract', 2),))
    iters(K, CLOSEST, 'Storage')
    a = K.args(fn, st)
    seqs = [spec_seq(K, st, CLOSEST, [ent(K, st, a[1], 'syntax', 'SyntaxNode', T='Contract')], 'Storage'), acc(K, st, a[1], 'Contract', 'events', 'Event'), acc(K, st, a[1], 'Contract', 'impls', 'InkImpl')]
    every(K, fn, K.run(fn, a, st), st, seqs, ('storages', 'events', 'impls'), lambda s, x: K.spec(s, CT + 'ensure_parent_contract', [a[1], x], 'Option<Diagnostic>'))

@contract(CT + 'ensure_impl_parent_for_callables', crate=A)
def callables(K):
    """every constructor and message is checked to be in an impl, and what the check gives is reported"""
    fn = K.con.fn
    st = start(K, opaque=((C + 'ensure_impl_parent', 1),))
    a = K.args(fn, st)
    seqs = [acc(K, st, a[1], 'Contract', 'constructors', 'Constructor'), acc(K, st, a[1], 'Contract', 'messages', 'Message')]
    every(K, fn, K.run(fn, a, st), st, seqs, ('constructors', 'messages'), lambda s, x: K.spec(s, C + 'ensure_impl_parent', [x], 'Option<Diagnostic>'))


GEN = C + 'run_generic_diagnostics'
on_item = lambda K, s, a: [a[1], a[2]]
on_item1 = lambda K, s, a: [a[1]]

def closest_storages(K, s, a):
    return spec_seq(K, s, CLOSEST, [ent(K, s, a[1], 'syntax', 'SyntaxNode', T='Contract')], 'Storage')

def parts(ty, field, ety):
    return lambda K, s, a: acc(K, s, a[1], ty, field, ety)

def v5(K, s, a):
    return K.t(s, a[2]) == vi(K, 'Version', 'V5')

@contract(CT + 'diagnostics', crate=A)
def contract_driver(K):
    """every rule of a contract runs, once, on this contract, and those of its parts on every part"""
    iters(K, CLOSEST, 'Storage')
    driver(K, K.con.fn,
        once=[(GEN, on_item), (CT + 'ensure_storage_quantity', on_item1), (CT + 'ensure_no_overlapping_selectors', on_item1), (CT + 'ensure_at_most_one_wildcard_selector', on_item1),
              (CT + 'validate_wildcard_complement_selector', on_item1), (CT + 'ensure_root_items', on_item1), (CT + 'ensure_impl_parent_for_callables', on_item1),
              (CT + 'ensure_valid_quasi_direct_ink_descendants', on_item), (D + 'environment::diagnostics', on_item1)],
        opts=[CT + 'ensure_inline_module', CT + 'ensure_contains_constructor', CT + 'ensure_contains_message'],
        loops=[(closest_storages, [CT + 'storage::diagnostics']), (parts('Contract', 'events', 'Event'), [D + 'event::diagnostics']), (parts('Contract', 'impls', 'InkImpl'), [CT + 'ink_impl::diagnostics']),
               (parts('Contract', 'constructors', 'Constructor'), [CT + 'constructor::diagnostics']), (parts('Contract', 'messages', 'Message'), [D + 'message::diagnostics']),
               (parts('Contract', 'tests', 'InkTest'), [D + 'ink_test::diagnostics']), (parts('Contract', 'e2e_tests', 'InkE2ETest'), [D + 'ink_e2e_test::diagnostics'])],
        cond={CT + 'validate_wildcard_complement_selector': v5})

F = D + 'file::'

@contract(F + 'diagnostics', crate=A)
def file_driver(K):
    """every rule of a file runs, once, and those of its parts on every part"""
    driver(K, K.con.fn,
        once=[(GEN, on_item), (F + 'ensure_contract_quantity', on_item1), (F + 'ensure_valid_quasi_direct_ink_descendants', on_item)],
        loops=[(parts('InkFile', 'contracts', 'Contract'), [CT + 'diagnostics']), (parts('InkFile', 'events_v2', 'EventV2'), [D + 'event::diagnostics']),
               (parts('InkFile', 'trait_definitions', 'TraitDefinition'), [D + 'trait_definition::diagnostics']), (parts('InkFile', 'chain_extensions', 'ChainExtension'), [D + 'chain_extension::diagnostics']),
               (parts('InkFile', 'storage_items', 'StorageItem'), [D + 'storage_item::diagnostics']), (parts('InkFile', 'tests', 'InkTest'), [D + 'ink_test::diagnostics']),
               (parts('InkFile', 'e2e_tests', 'InkE2ETest'), [D + 'ink_e2e_test::diagnostics'])])

@contract(F + 'ensure_contract_quantity', crate=A)
def contract_quantity(K):
    """every contract of the file but the first is an error"""
    fn = K.con.fn
    M = C + 'ensure_at_most_one_item'
    st = start(K, M)
    a = K.args(fn, st)
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        s = o.st
        evs = own(evs)
        K.ob('checked once', s, z3.BoolVal(len(evs) == 1 and evs[0][:2] == ('call', M)))
        for e in evs:
            K.ob('the contracts of the file', s, K.eq(s, e[2][0], acc(K, s, a[1], 'InkFile', 'contracts', 'Contract')))
            K.ob('as errors', s, K.t(s, e[2][2]) == vi(K, 'Severity', 'Error'))
