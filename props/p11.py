"""P11: the entities found in a file are exactly the ones its attributes declare."""
import z3
import kit
from kit import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['rust-analyzer\'s tree (children, parent, ancestors, descendants in document order) is a function of the source text; syntax trees are finite',
               'Itertools::unique_by keeps the first element per key']
IR = 'ir'
U = 'tree::utils::'
CAST = 'InkAttribute::cast'

def vi(K, en, v):
    return K.E.defs.variant_index(en, v)

def ext(K, s, name, args, ty):
    return K.E.symval(s, K.E.nty(ty), 'ext:' + name, [K.t(s, a) for a in args])

def seq_of(K, s, name, node):
    """the sequence an external tree method gives for a node, None if it was never called"""
    r = [f(K.t(s, node)) for key, f in K.E.funcs.items() if key[0] == 'ext:rowan::api::SyntaxNode::' + name]
    return r[0] if len(r) == 1 else None

def spec_seq(K, s, name, args, ety='InkAttribute'):
    return K.E.symval(s, K.E.nty(f'Vec<{ety}>'), 'spec:' + name, [K.t(s, a) for a in args])

def iters(K, *names, ety='InkAttribute'):
    """callers are checked against the contract: the function gives a sequence that depends on its arguments only"""
    for name in names:
        def c(E, st, func, args, dty, name=name):
            yield Outcome(st, VSymIter(spec_seq(K, st, name, args, ety), ety))
        K.E.contracts[name] = c

def attr_node(K, s, node):
    return ext(K, s, "('as', 'Attr', 'AstNode')::cast", [node], 'Option<Attr>')

def ink(K, s, node):
    """(is an ink! attribute, the attribute) for a syntax node"""
    a = attr_node(K, s, node)
    i = K.spec(s, CAST, [K.payload(s, a, 'Some')], 'Option<InkAttribute>')
    return z3.And(K.is_(s, a, 'Some', 'Option'), K.is_(s, i, 'Some', 'Option')), K.payload(s, i, 'Some')

def plain(K, it, what):
    for k, _ in it.stages:
        if k not in ('filter_map', 'map', 'filter', 'flat_map', 'cloned', 'copied', 'inspect'):
            K.fail(f'{what}: every element in order (stage {k})')

def attrs_of(K, s, it, node, what):
    """`it` is exactly the node's ink! attributes in order"""
    K.ob(f'{what}: over the children of the node', s, it.src == seq_of(K, s, 'children', node))
    n = 0
    for s2, item, kept, val in K.E.iter_elem(K.E, s, it):
        n += 1
        c, a = ink(K, s2, item)
        K.ob(f'{what}: exactly the ink! attributes', s2, z3.BoolVal(kept) == c)
        if kept:
            K.ob(f'{what}: the attribute', s2, K.eq(s2, val, a))
    plain(K, it, what)
    if not n:
        raise ToolLimit(what)

@contract(U + 'ink_attrs', crate=IR)
def ink_attrs(K):
    """an item's ink! attributes are exactly its own attributes that name ink!, in order"""
    K.opaque(CAST)
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        attrs_of(K, o.st, K.elems(o.st, o.val), a[0], 'own attributes')

@contract(U + 'ink_attrs_descendants', crate=IR)
def ink_attrs_descendants(K):
    """all ink! attributes below the item but not its own, in document order"""
    E = K.E
    K.opaque(CAST)
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        it = K.elems(s, o.val)
        K.ob('over the children of the node', s, it.src == seq_of(K, s, 'children', a[0]))
        plain(K, it, 'descendants')
        n = 0
        for s2, item, kept, val in E.iter_elem(E, s, it):
            own = ext(K, s2, 'rowan::api::SyntaxNode::kind', [item], 'SyntaxKind') == vi(K, 'SyntaxKind', 'ATTR')
            b = E.branch(s2, own)
            if b is not None:
                K.ob('own attributes are left out', b, z3.BoolVal(not kept))
            b = E.branch(s2, z3.Not(own))
            if b is None or b.ghost.get('inner_none'):
                continue
            d = seq_of(K, b, 'descendants', item)
            if d is None:
                K.ob('every other child is searched', b, z3.BoolVal(False))
                continue
            n += 1
            x = E.symval(b, E.nty('SyntaxNode'), 'at', [d, b.ghost['idx']])
            c, at = ink(K, b, x)
            K.ob('exactly the ink! attributes', b, z3.BoolVal(kept) == c)
            if kept:
                K.ob('the attribute', b, K.eq(b, val, at))
        if not n:
            raise LostAnchor('search of the children')

@contract(U + 'ink_attrs_closest_descendants', crate=IR)
def closest(K):
    """by induction over the tree: a child with ink! attributes contributes exactly those, any other child what is closest below it"""
    E = K.E
    iters(K, U + 'ink_attrs')
    me = U + 'ink_attrs_closest_descendants'
    iters(K, me)
    st = State()
    a = K.args(me, st)
    for o in K.run(me, a, st):
        s = o.st
        it = K.elems(s, o.val)
        K.ob('over the children of the node', s, it.src == seq_of(K, s, 'children', a[0]))
        plain(K, it, 'closest descendants')
        n = 0
        for s2, item, kept, val in E.iter_elem(E, s, it):
            if s2.ghost.get('inner_none'):
                continue
            n += 1
            K.ob('nothing is left out', s2, z3.BoolVal(kept))
            own = spec_seq(K, s2, U + 'ink_attrs', [item])
            below = spec_seq(K, s2, me, [item])
            i = s2.ghost['idx']
            has = E.seq_len(s2, own) > 0
            for c, q in ((has, own), (z3.Not(has), below)):
                b = E.branch(s2, c)
                if b is not None and kept:
                    K.ob('its own attributes, else those closest below it', b, K.eq(b, val, E.symval(b, E.nty('InkAttribute'), 'at', [q, i])))
        if n < 2:
            raise LostAnchor('children with and without ink! attributes')

@contract(U + 'ink_attrs_in_scope', crate=IR)
def in_scope(K):
    """the item's own ink! attributes followed by those below it"""
    E = K.E
    iters(K, U + 'ink_attrs', U + 'ink_attrs_descendants')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        p = K.parts(s, o.val)
        K.ob('two parts', s, z3.BoolVal(len(p) == 2))
        for x, n in zip(p, ('ink_attrs', 'ink_attrs_descendants')):
            K.ob(n, s, z3.And(x.src == spec_seq(K, s, U + n, [a[0]]), z3.BoolVal(not x.stages)))

@contract(U + 'ink_attrs_ancestors', crate=IR)
def ancestors(K):
    """the ink! attributes of all proper ancestors, nearest first; for an attribute those above the item it is on"""
    E = K.E
    iters(K, U + 'ink_attrs')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        it = K.elems(s, o.val)
        K.ob('over the ancestors of the node', s, it.src == seq_of(K, s, 'ancestors', a[0]))
        plain(K, it, 'ancestors')
        n = 0
        for s2, item, kept, val in E.iter_elem(E, s, it):
            if s2.ghost.get('inner_none'):
                continue
            n += 1
            if kept:
                own = spec_seq(K, s2, U + 'ink_attrs', [item])
                K.ob('attributes of that ancestor', s2, K.eq(s2, val, E.symval(s2, E.nty('InkAttribute'), 'at', [own, s2.ghost['idx']])))
                K.ob('not the node itself', s2, K.t(s2, item) != K.t(s2, a[0]))
            else:
                isattr = ext(K, s2, 'rowan::api::SyntaxNode::kind', [a[0]], 'SyntaxKind') == vi(K, 'SyntaxKind', 'ATTR')
                par = ext(K, s2, 'rowan::api::SyntaxNode::parent', [a[0]], 'Option<SyntaxNode>')
                pr = ext(K, s2, 'rowan::api::SyntaxNode::text_range', [K.payload(s2, par, 'Some')], 'TextRange')
                ir = ext(K, s2, 'rowan::api::SyntaxNode::text_range', [item], 'TextRange')
                K.ob('left out only: the node itself, and an attribute\'s item', s2, z3.Or(K.t(s2, item) == K.t(s2, a[0]),
                     z3.And(isattr, K.is_(s2, par, 'Some', 'Option'), K.t(s2, pr) == K.t(s2, ir))))
        if n < 2:
            raise LostAnchor('ancestors')

@contract(U + 'ink_args', crate=IR)
def ink_args(K):
    """all arguments of all ink! attributes of the item, in order"""
    E = K.E
    iters(K, U + 'ink_attrs')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        it = K.elems(s, o.val)
        K.ob('over the ink! attributes', s, it.src == spec_seq(K, s, U + 'ink_attrs', [a[0]]))
        plain(K, it, 'arguments')
        n = 0
        for s2, item, kept, val in E.iter_elem(E, s, it):
            if s2.ghost.get('inner_none'):
                continue
            n += 1
            K.ob('nothing is left out', s2, z3.BoolVal(kept))
            if kept:
                K.ob('the arguments of that attribute', s2, K.eq(s2, val, E.symval(s2, E.nty('InkArg'), 'at', [K.t(s2, K.fld(s2, item, 'args')), s2.ghost['idx']])))
        if not n:
            raise LostAnchor('arguments')


def by_kind(K, s, attr, kind):
    """the argument `attr.args().iter().find(kind)` gives: (exists, index) with first-ness, as axioms over the argument list"""
    E = K.E
    args = K.t(s, K.fld(s, attr, 'args'))
    n = E.seq_len(s, args)
    def is_kind(i):
        return K.t(s, K.fld(s, E.symval(s, E.nty('InkArg'), 'at', [args, i]), 'kind')) == K.t(s, kind)
    return args, n, is_kind

def check_find(K, s, attr, kind, kept, val, what):
    """`val` is the attribute's first argument of the kind and `kept` says whether there is one"""
    E = K.E
    args, n, is_kind = by_kind(K, s, attr, kind)
    j = z3.Int(f'j!{what}')
    if not kept:
        s2 = s.fork() if hasattr(s, 'fork') else s
        K.ob(f'{what}: left out only without an argument of the kind', s, z3.Not(z3.And(j >= 0, j < n, is_kind(j))))
    else:
        i = z3.Int(f'i!{what}')
        K.ob(f'{what}: of the asked kind', s, K.t(s, K.fld(s, val, 'kind')) == K.t(s, kind))
        k = z3.Int('k!w')
        e = K.t(s, E.symval(s, E.nty('InkArg'), 'at', [args, k]))
        K.ob(f'{what}: one of the arguments, the first of the kind', s, z3.Exists([k], z3.And(k >= 0, k < n, e == K.t(s, val),
             z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(is_kind(j)))))))

@contract(U + 'ink_args_by_kind', crate=IR)
def ink_args_by_kind(K):
    """per ink! attribute of the item its first argument of the kind, in order"""
    E = K.E
    iters(K, U + 'ink_attrs')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        it = K.elems(s, o.val)
        K.ob('over the ink! attributes', s, it.src == spec_seq(K, s, U + 'ink_attrs', [a[0]]))
        plain(K, it, 'arguments')
        n = 0
        for s2, item, kept, val in E.iter_elem(E, s, it):
            n += 1
            check_find(K, s2, item, a[1], kept, val, 'argument')
        if n < 2:
            raise LostAnchor('arguments')

@contract(U + 'ink_arg_by_kind', crate=IR)
def ink_arg_by_kind(K):
    """the first argument of the kind over all ink! attributes of the item"""
    E = K.E
    iters(K, U + 'ink_attrs')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        attrs = spec_seq(K, s, U + 'ink_attrs', [a[0]])
        n = E.seq_len(s, attrs)
        def at(i, k):
            args = K.t(s, K.fld(s, E.symval(s, E.nty('InkAttribute'), 'at', [attrs, i]), 'args'))
            e = E.symval(s, E.nty('InkArg'), 'at', [args, k])
            return z3.And(i >= 0, i < n, k >= 0, k < E.seq_len(s, args)), e, K.t(s, K.fld(s, e, 'kind')) == K.t(s, a[1])
        i, k, i2, k2 = z3.Ints('i!p k!p i2!p k2!p')
        inr, e, isk = at(i, k)
        inr2, _, isk2 = at(i2, k2)
        for s2, p in K.some(s, o.val):
            if p is None:
                K.ob('none only if no attribute has an argument of the kind', s2, z3.Not(z3.And(inr, isk)))
            else:
                K.ob('of the asked kind', s2, K.t(s2, K.fld(s2, p[0], 'kind')) == K.t(s2, a[1]))
                it = s2.ghost['idx']
                K.ob('the first argument of the kind in attribute order', s2, z3.Exists([i, k], z3.And(inr, isk, K.t(s2, e) == K.t(s2, p[0]),
                     z3.ForAll([i2, k2], z3.Implies(z3.And(inr2, isk2), z3.Or(i2 > i, z3.And(i2 == i, k2 >= k)))))))

# ---------------------------------------------------------------- items
AST = 'tree::ast_ext::'
NEAREST = AST + 'closest_ancestor_ast_type'
ITEM = AST + 'parent_ast_item'

@contract(NEAREST, crate=IR)
def nearest_ancestor(K):
    """by induction: the parent if it is of the type, else the nearest above the parent"""
    K.opaque(NEAREST)
    st = State()
    a = K.args(NEAREST, st)
    for o in K.run(NEAREST, a, st):
        s = o.st
        par = ext(K, s, "('as', 'I', 'IsSyntax')::parent", [a[0]], 'Option<SyntaxNode>')
        p = K.payload(s, par, 'Some')
        can = ext(K, s, "('as', 'T', 'AstNode')::can_cast", [ext(K, s, 'rowan::api::SyntaxNode::kind', [p], 'SyntaxKind')], 'bool')
        c = ext(K, s, "('as', 'T', 'AstNode')::cast", [p], 'Option<T>')
        up = K.spec(s, NEAREST, [p], 'Option<T>')
        want = z3.If(can, K.t(s, c), K.t(s, up))
        b = K.E.branch(s, K.is_(s, par, 'Some', 'Option'))
        if b is not None:
            K.ob('the parent if of the type, else the nearest above it', b, K.eq(b, o.val, want))
        b = K.E.branch(s, z3.Not(K.is_(s, par, 'Some', 'Option')))
        if b is not None:
            K.ob('none at the root', b, K.is_(b, o.val, 'None', 'Option'))

def kind_is(K, s, attr, what, kind):
    k = K.fld(s, attr, 'kind')
    return z3.And(K.is_(s, k, what, 'InkAttributeKind'), K.payload(s, k, what) == vi(K, 'InkMacroKind' if what == 'Macro' else 'InkArgKind', kind))

def syntax(K, s, attr):
    return ext(K, s, "('as', 'Attr', 'AstNode')::syntax", [K.fld(s, attr, 'ast')], 'SyntaxNode')

@contract(U + 'is_possible_callable_ancestor', crate=IR)
def callable_ancestor(K):
    """callables may be below an ink! impl, or below an impl item with a namespace or unknown attribute; nothing else"""
    K.opaque(ITEM)
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        unknown = z3.Or(kind_is(K, s, a[0], 'Macro', 'Unknown'), kind_is(K, s, a[0], 'Arg', 'Unknown'))
        item = K.spec(s, ITEM, [syntax(K, s, a[0])], 'Option<Item>')
        impl = z3.And(K.is_(s, item, 'Some', 'Option'), K.is_(s, K.payload(s, item, 'Some'), 'Impl', 'Item'))
        K.ob('exactly', s, o.val == z3.Or(kind_is(K, s, a[0], 'Arg', 'Impl'), z3.And(z3.Or(kind_is(K, s, a[0], 'Arg', 'Namespace'), unknown), impl)))

def any_attr(K, s, seq, f):
    """exists formula over a sequence of attributes"""
    E = K.E
    i = z3.Int('i!any')
    return z3.Exists([i], z3.And(i >= 0, i < E.seq_len(s, seq), f(E.symval(s, E.nty('InkAttribute'), 'at', [seq, i]))))

@contract('ink_impl::can_cast', crate=IR)
def is_ink_impl(K):
    """an item is an ink! impl exactly if it says so, or is an impl with constructors or messages closest below it, or implements a trait definition"""
    K.opaque('ink_impl::trait_definition')
    iters(K, U + 'ink_attrs', U + 'ink_attrs_closest_descendants')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        own = spec_seq(K, s, U + 'ink_attrs', [a[0]])
        below = spec_seq(K, s, U + 'ink_attrs_closest_descendants', [a[0]])
        can = ext(K, s, "('as', 'Impl', 'AstNode')::can_cast", [ext(K, s, 'rowan::api::SyntaxNode::kind', [a[0]], 'SyntaxKind')], 'bool')
        c = ext(K, s, "('as', 'Impl', 'AstNode')::cast", [a[0]], 'Option<Impl>')
        td = K.spec(s, 'ink_impl::trait_definition', [K.payload(s, c, 'Some')], 'Option<TraitDefinition>')
        says = any_attr(K, s, own, lambda x: kind_is(K, s, x, 'Arg', 'Impl'))
        calls = any_attr(K, s, below, lambda x: z3.Or(kind_is(K, s, x, 'Arg', 'Constructor'), kind_is(K, s, x, 'Arg', 'Message')))
        trait = z3.And(K.is_(s, c, 'Some', 'Option'), K.is_(s, td, 'Some', 'Option'))
        K.ob('exactly', s, o.val == z3.Or(says, z3.And(can, z3.Or(calls, trait))))

@contract(U + 'ink_parent', crate=IR)
def ink_parent(K):
    """the entity of the type that one of the enclosing item's own ink! attributes declares"""
    K.opaque(ITEM)
    iters(K, U + 'ink_attrs')
    E = K.E
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        item = K.spec(s, ITEM, [a[0]], 'Option<Item>')
        node = ext(K, s, "('as', 'Item', 'AstNode')::syntax", [K.payload(s, item, 'Some')], 'SyntaxNode')
        seq = spec_seq(K, s, U + 'ink_attrs', [node])
        def cast(x):
            return ext(K, s, "('as', 'T', 'InkEntity')::cast@<T>", [syntax(K, s, x)], 'Option<T>')
        some = z3.And(K.is_(s, item, 'Some', 'Option'), any_attr(K, s, seq, lambda x: K.is_(s, cast(x), 'Some', 'Option')))
        K.ob('found exactly if declared', s, K.is_(s, o.val, 'Some', 'Option') == some)
        for s2, p in K.some(s, o.val):
            if p is not None:
                i = z3.Int('i!w')
                x = E.symval(s2, E.nty('InkAttribute'), 'at', [seq, i])
                K.ob('declared by an attribute of the item', s2, z3.Exists([i], z3.And(i >= 0, i < E.seq_len(s2, seq), K.t(s2, K.payload(s2, cast(x), 'Some')) == K.t(s2, p[0]))))

def entities(K, name, it, s, a, castable):
    """`it`: the ink! attributes of `name`, each cast to the entity"""
    E = K.E
    K.ob('over the ink! attributes', s, it.src == spec_seq(K, s, U + name, [a[0]]))
    plain(K, it, 'entities')
    n = 0
    for s2, item, kept, val in E.iter_elem(E, s, it):
        n += 1
        e = ext(K, s2, "('as', 'T', 'InkEntity')::cast@<T>", [syntax(K, s2, item)], 'Option<T>')
        K.ob('exactly the attributes that declare the entity', s2, z3.BoolVal(kept) == K.is_(s2, e, 'Some', 'Option'))
        if kept:
            K.ob('the entity', s2, K.t(s2, val) == K.t(s2, K.payload(s2, e, 'Some')))
    if n < 2:
        raise LostAnchor('entities')

def entity_search(fn, attrs):
    @contract(U + fn, crate=IR)
    def c(K):
        """exactly the entities of the type that those attributes declare, in order"""
        iters(K, U + attrs)
        st = State()
        a = K.args(U + fn, st)
        for o in K.run(U + fn, a, st):
            entities(K, attrs, K.elems(o.st, o.val), o.st, a, None)
    CONTRACTS[-1].name = 'search_' + fn
entity_search('ink_descendants', 'ink_attrs_descendants')
entity_search('ink_closest_descendants', 'ink_attrs_closest_descendants')
entity_search('ink_ancestors', 'ink_attrs_ancestors')

def tcast(K, s, x, how='cast', T='T'):
    """`T::cast(x)`: the engine names the generic method with and without its type argument"""
    r = []
    for n in (f"('as', '{T}', 'InkEntity')::{how}", f"('as', '{T}', 'InkEntity')::{how}@<{T}>"):
        r.append(ext(K, s, n, [x], f'Option<{T}>' if how == 'cast' else 'bool'))
    return r

@contract(U + 'ink_peekable_quasi_closest_descendants', crate=IR)
def peekable(K):
    """the entities closest below, and those closest below a peekable attribute's item, each once"""
    E = K.E
    E.pre_panics = ['expect']      # `can_cast` implies that `cast` gives an entity: the cast contracts below
    iters(K, U + 'ink_attrs_closest_descendants')
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    pred = []
    for o in K.run(fn, a, st):
        s = o.st
        it = K.elems(s, o.val)
        K.ob('over the closest ink! attributes', s, it.src == spec_seq(K, s, U + 'ink_attrs_closest_descendants', [a[0]]))
        K.ob('each once', s, z3.BoolVal([k for k, _ in it.stages if k not in ('map', 'filter_map', 'flat_map', 'filter')] == ['unique']))
        n = 0
        for s2, item, kept, val in E.iter_elem(E, s, it):
            kept = kept or bool(s2.ghost.get('dup'))
            if s2.ghost.get('inner_none'):
                continue
            n += 1
            node = syntax(K, s2, item)
            can = tcast(K, s2, node, 'can_cast')[0]
            own = [K.t(s2, K.payload(s2, c, 'Some')) for c in tcast(K, s2, node)]
            b = E.branch(s2, can)
            if b is not None:
                K.ob('an entity closest below is kept', b, z3.And(z3.BoolVal(kept), z3.Or([K.t(b, val) == x for x in own]) if kept else False))
            b = E.branch(s2, z3.Not(can))
            if b is not None and kept:
                par = ext(K, b, 'rowan::api::SyntaxNode::parent', [node], 'Option<SyntaxNode>')
                seq = spec_seq(K, b, U + 'ink_attrs_closest_descendants', [K.payload(b, par, 'Some')])
                at = E.symval(b, E.nty('InkAttribute'), 'at', [seq, b.ghost['idx']])
                es = [K.t(b, K.payload(b, c, 'Some')) for c in tcast(K, b, syntax(K, b, at))]
                K.ob('else those closest below the item', b, z3.Or([K.t(b, val) == x for x in es]))
                K.ob('only below a peekable attribute', b, z3.BoolVal(any('arg1' in str(p) for p in b.pc)))
        if n < 4:
            raise LostAnchor('kinds of attributes')

@contract(U + 'ink_impl_closest_descendants', crate=IR)
def impls(K):
    """the ink! impls among the item's own impl items and those the closest attributes lead to, each once"""
    E = K.E
    E.pre_panics = ['expect']
    CD = U + 'ink_attrs_closest_descendants'
    iters(K, CD)
    ICAST = '<InkImpl as InkEntity>::cast'
    LIST = AST + 'resolve_item_list_root'
    K.opaque(ITEM, U + 'is_possible_callable_ancestor', ICAST, LIST)
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        ps = K.parts(s, K.elems(s, o.val))
        K.ob('own impl items, then those of the closest attributes', s, z3.BoolVal(len(ps) == 2))
        p, q = ps
        K.ob('the items of its body', s, p.src == seq_of(K, s, 'children', K.spec(s, LIST, [a[0]], 'SyntaxNode')))
        K.ob('closest attributes', s, q.src == spec_seq(K, s, CD, [a[0]]))
        for it in ps:
            K.ob('each once', s, z3.BoolVal([k for k, _ in it.stages if k not in ('map', 'filter_map', 'flat_map', 'filter')] == ['unique']))
        def impl_of(s2, node):
            c = K.spec(s2, ICAST, [node], 'Option<InkImpl>')
            return K.is_(s2, c, 'Some', 'Option'), K.payload(s2, c, 'Some')
        for s2, item, kept, val in E.iter_elem(E, s, p):
            kept = kept or bool(s2.ghost.get('dup'))
            i = ext(K, s2, "('as', 'Impl', 'AstNode')::cast", [item], 'Option<Impl>')
            c, v = impl_of(s2, ext(K, s2, "('as', 'Impl', 'AstNode')::syntax", [K.payload(s2, i, 'Some')], 'SyntaxNode'))
            K.ob('exactly the ink! impls', s2, z3.BoolVal(kept) == z3.And(K.is_(s2, i, 'Some', 'Option'), c))
            if kept:
                K.ob('the impl', s2, K.eq(s2, val, v))
        for s2, item, kept, val in E.iter_elem(E, s, q):
            kept = kept or bool(s2.ghost.get('dup'))
            node = syntax(K, s2, item)
            par = K.spec(s2, U + 'is_possible_callable_ancestor', [item], 'bool')
            it_ = K.spec(s2, ITEM, [node], 'Option<Item>')
            alts = [(par, K.is_(s2, it_, 'Some', 'Option'), ext(K, s2, "('as', 'Item', 'AstNode')::syntax", [K.payload(s2, it_, 'Some')], 'SyntaxNode'))]
            for T in ('Constructor', 'Message'):
                pi = ext(K, s2, f"('as', '{T}', 'HasInkImplParent')::parent_impl_item", [K.payload(s2, tcast(K, s2, node, 'cast', T)[0], 'Some')], 'Option<Impl>')
                alts.append((tcast(K, s2, node, 'can_cast', T)[0], K.is_(s2, pi, 'Some', 'Option'), ext(K, s2, "('as', 'Impl', 'AstNode')::syntax", [K.payload(s2, pi, 'Some')], 'SyntaxNode')))
            rest = s2
            for c, found, target in alts:
                b = E.branch(rest, c) if rest is not None else None
                rest = E.branch(rest, z3.Not(c)) if rest is not None else None
                if b is not None:
                    ok, v = impl_of(b, target)
                    K.ob('exactly the ink! impls the attribute leads to', b, z3.BoolVal(kept) == z3.And(found, ok))
                    if kept:
                        K.ob('the impl it leads to', b, K.eq(b, val, v))
            if rest is not None:
                K.ob('other attributes lead to none', rest, z3.BoolVal(not kept))

# ---------------------------------------------------------------- the generated entities
ENTITIES = {
    'InkFile': (None, dict(contracts=('near', 'Contract'), events_v2=('peek', 'EventV2'), trait_definitions=('peek', 'TraitDefinition'), chain_extensions=('peek', 'ChainExtension'),
                           storage_items=('peek', 'StorageItem'), tests=('near', 'InkTest'), e2e_tests=('near', 'InkE2ETest'))),
    'Contract': ('Macro', 'Contract', dict(storage=('first', 'Storage'), events=('near', 'Event'), impls=('impls', 'InkImpl'), constructors=('call', 'Constructor'),
                                  messages=('call', 'Message'), tests=('near', 'InkTest'), e2e_tests=('near', 'InkE2ETest'))),
    'Event': ('Arg', 'Event', dict(topics=('near', 'Topic'))),
    'EventV2': ('Macro', 'Event', dict(topics=('near', 'Topic'))),
    'Storage': ('Arg', 'Storage', {}), 'Constructor': ('Arg', 'Constructor', {}), 'Message': ('Arg', 'Message', {}), 'Topic': ('Arg', 'Topic', {}),
    'Extension': ('Arg', 'Extension', {}), 'Function': ('Arg', 'Function', {}), 'StorageItem': ('Macro', 'StorageItem', {}),
    'InkTest': ('Macro', 'Test', {}), 'InkE2ETest': ('Macro', 'E2ETest', {}), 'ScaleDerive': ('Macro', 'ScaleDerive', {}),
    'TraitDefinition': ('Macro', 'TraitDefinition', dict(messages=('near', 'Message'))),
    'ChainExtension': ('Macro', 'ChainExtension', dict(extensions=('near', 'Extension'), functions=('near', 'Function'))),
    'InkImpl': ('call', 'ink_impl::can_cast', dict(constructors=('near', 'Constructor'), messages=('near', 'Message'))),
}
SEARCH = {'near': U + 'ink_closest_descendants', 'first': U + 'ink_closest_descendants', 'peek': U + 'ink_peekable_quasi_closest_descendants',
          'call': U + 'ink_callable_closest_descendants', 'impls': U + 'ink_impl_closest_descendants'}

def searches(K, preds):
    import re
    for name in set(SEARCH.values()):
        def c(E, st, func, args, dty, name=name):
            m = re.search(r'::<(?:\w+::)*(\w+)', func.rsplit(name.rsplit('::', 1)[-1], 1)[-1])
            T = m.group(1) if m else 'InkImpl'
            if len(args) > 1:
                preds.append((st.fork(), T, args[1]))
            yield Outcome(st, VSymIter(spec_seq(K, st, name + ':' + T, args[:1], T), T))
        K.E.contracts[name] = c

def efld(K, s, ty, e, name):
    """field of a generated entity struct"""
    if 'ir::' + ty in K.E.defs.structs:
        return K.fld(s, e, name, of='ir::' + ty)
    gen = ['syntax', 'ast', 'ink_attr']
    return K.deref(s, K.E.get_field(s, K.deref(s, e), None, gen.index(name), ['SyntaxNode', 'Option<Fn>', 'Option<InkAttribute>'][gen.index(name)]))

def find_body(K, ty, method):
    for n in K.crate.bodies:
        if n.startswith(f'<{ty} as ') and n.endswith('>::' + method) and 'entity' in n:
            return n
    raise LostAnchor(f'{ty}::{method}')

def is_attr(K, s, node):
    return ext(K, s, "('as', 'Attr', 'AstNode')::can_cast", [ext(K, s, 'rowan::api::SyntaxNode::kind', [node], 'SyntaxKind')], 'bool')

def declares(K, s, node, what, kind):
    """(the node is, or has, an ink! attribute of the kind)"""
    a = attr_node(K, s, node)
    i = K.spec(s, CAST, [K.payload(s, a, 'Some')], 'Option<InkAttribute>')
    own = z3.And(K.is_(s, a, 'Some', 'Option'), K.is_(s, i, 'Some', 'Option'), kind_is(K, s, K.payload(s, i, 'Some'), what, kind))
    seq = spec_seq(K, s, U + 'ink_attrs', [node])
    return z3.If(is_attr(K, s, node), own, any_attr(K, s, seq, lambda x: kind_is(K, s, x, what, kind)))

def entity(ty, what, kind, fields):
    def c(K):
        E = K.E
        preds = []
        K.opaque(CAST)
        iters(K, U + 'ink_attrs')
        searches(K, preds)
        if what == 'call':
            K.opaque(kind)
        # can_cast
        node = None
        if what:
            fn = find_body(K, ty, 'can_cast')
            st = State()
            a = K.args(fn, st)
            for o in K.run(fn, a, st):
                if what == 'call':
                    K.ob('can_cast', o.st, o.val == K.spec(o.st, kind, [a[0]], 'bool'))
                else:
                    K.ob('recognised exactly by its own attribute', o.st, o.val == declares(K, o.st, a[0], what, kind))
            K.opaque(f'<{ty} as InkEntity>::can_cast', fn)
        fn = find_body(K, ty, 'cast' if what else 'from')
        st = State()
        a = K.args(fn, st)
        n = 0
        for o in K.run(fn, a, st):
            s = o.st
            if what:
                node = a[0]
                cs = K.some(s, o.val)
            else:
                node = ext(K, s, f"('as', 'SourceFile', 'AstNode')::syntax", [a[0]], 'SyntaxNode')
                cs = [(s, [o.val])]
            for s2, p in cs:
                if what:
                    can = [f(K.t(s2, node)) for k, f in E.funcs.items() if k[0] in (f'spec:<{ty} as InkEntity>::can_cast', 'spec:' + find_body(K, ty, 'can_cast'))]
                    if len(can) != 1:
                        raise LostAnchor('can_cast')
                    K.ob('an entity exactly if recognised', s2, z3.BoolVal(p is not None) == can[0])
                if p is None:
                    continue
                n += 1
                e = p[0]
                par = ext(K, s2, 'rowan::api::SyntaxNode::parent', [node], 'Option<SyntaxNode>')
                root = z3.If(z3.And(is_attr(K, s2, node), K.is_(s2, par, 'Some', 'Option')), K.t(s2, K.payload(s2, par, 'Some')), K.t(s2, node))
                K.ob('the item the attribute is on', s2, K.t(s2, efld(K, s2, ty, e, 'syntax')) == root)
                if what in ('Macro', 'Arg'):
                    at = efld(K, s2, ty, e, 'ink_attr')
                    for s3, q in K.some(s2, at):
                        if q is not None:
                            K.ob('its attribute is of its kind', s3, kind_is(K, s3, q[0], what, kind))
                root = efld(K, s2, ty, e, 'syntax')
                for f, (how, T) in fields.items():
                    v = efld(K, s2, ty, e, f)
                    src = spec_seq(K, s2, SEARCH[how] + ':' + T, [root], T)
                    if how == 'first':
                        some = E.seq_len(s2, src) > 0
                        for s3, q in K.some(s2, v):
                            K.ob(f'{f}: present exactly if declared', s3, z3.BoolVal(q is not None) == some)
                            if q is not None:
                                K.ob(f'{f}: the first declared', s3, K.t(s3, q[0]) == K.t(s3, E.symval(s3, E.nty(T), 'at', [src, z3.IntVal(0)])))
                        continue
                    it = K.elems(s2, v)
                    K.ob(f'{f}: exactly the declared {T}s in order', s2, z3.And(it.src == src, z3.BoolVal(not it.stages)))
        if not n:
            raise LostAnchor('entity')
        for s, T, pr in preds:
            if not what:
                at = E.symval(s, E.nty('InkAttribute'), 'some_attr')
                for o in E.call_value(s, pr, [at], 'bool'):
                    K.ob(f'{T}s are also looked for inside contracts only', o.st, o.val == kind_is(K, o.st, at, 'Macro', 'Contract'))
    c.__name__ = 'entity_' + ty
    c.__doc__ = f'{ty}: recognised exactly by its attribute, with exactly the entities declared below it'
    contract(f'<{ty} as InkEntity>', crate=IR)(c)

for _ty, _v in ENTITIES.items():
    entity(_ty, _v[0], _v[1] if len(_v) == 3 else None, _v[-1])
