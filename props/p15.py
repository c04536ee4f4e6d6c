"""P15: which attributes may stand together on an item, in which order."""
import z3
import kit
from kit import *
from diaglib import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['itertools sorted is stable (the first of equally ranked elements comes first)', 'derived PartialEq of ink! attributes is equality', 'different attributes of an item have different text ranges']
A = 'ana'
ALSO = ('ir',)
C = D + 'common::'
CAND, SIB, SUG = (UT + x for x in ('primary_ink_attribute_candidate', 'valid_sibling_ink_args', 'primary_ink_attribute_kind_suggestions'))
ENT = C + 'validate_entity_attributes'
REM = UT + 'ink_arg_and_delimiter_removal_range'

def mk_kind(K, s, kind):
    """a predicate for `Macro(x)` / `Arg(x)`"""
    d = lambda o: K.is_(s, kind, o, 'InkAttributeKind')
    p = lambda o: K.t(s, K.payload(s, kind, o))
    def is_(o, *names):
        return z3.And(d(o), z3.Or([p(o) == vi(K, f'Ink{o}Kind', n) for n in names]))
    return is_, d, p

def entity(K, ver, outer, only, rest, fst_=None):
    E = K.E
    fn = K.con.fn
    E.plain_display |= {'MetaOption', 'MetaName', 'InkArgKind', 'InkArg', 'MetaNameValue', 'InkMacroKind'}
    # what quick fixes look like does not matter here
    E.any_types = {E.nty(x) for x in ('Option<Vec<Action>>', 'Vec<Action>', 'Action', 'Option<Action>', 'String', 'Option<TextSize>')}
    E.max_paths = 100000
    st = start(K, opaque=[u for u in UTILS if u != REM] + [(REM, 1), 'InkArg::text_range', 'InkArg::name', SIB, SUG, UT + 'ink_arg_insert_text', UT + 'first_ink_arg_insert_offset_and_affixes', 'tree::ast_ext::parent_ast_item'])
    ANC = 'tree::utils::ink_closest_ancestors'
    iters(K, ANC, 'ChainExtension')
    a = K.args(fn, st)
    attrs = K.t(st, a[1])
    def the_cand(s):
        return E.symval(s, E.nty('Option<(InkAttribute,bool)>'), 'spec:' + CAND, [attrs])
    E.contracts[CAND] = lambda E, s, func, args, dty: iter([Outcome(s, the_cand(s))])
    def eq(E, s, func, args, dty):
        yield Outcome(s, K.t(s, K.deref(s, args[0])) == K.t(s, K.deref(s, args[1])))
    E.contracts['<InkAttribute as PartialEq>::eq'] = eq
    def parts(s):
        t = K.payload(s, the_cand(s), 'Some')
        p = E.get_field(s, t, None, 0, 'InkAttribute')
        return p, E.get_field(s, t, None, 1, 'bool'), K.fld(s, p, 'kind', of='InkAttribute')
    st.assume(K.t(st, a[2]) == vi(K, 'Version', ver))
    p0, _, k0 = parts(st)
    is0, d0, _ = mk_kind(K, st, k0)
    st.assume(d0(outer))
    if only:
        st.assume(is0(outer, only))
    for r in rest:
        st.assume(z3.Not(is0(outer, r)))
    # the contract `needs` of the callee says which kinds stand alone
    alone = E.seq_len(st, K.t(st, K.spec(st, SUG, [k0, a[2]], 'Vec<InkAttributeKind>'))) == 0
    if only or outer == 'Macro':
        w = NEEDS.get((outer, only), '')
        st.assume(alone == (not (w if isinstance(w, str) else w.get(ver, ''))))
    # the contract `decides` of the callee: one of the list, and whether it is the first (different attributes lie at different places)
    at0 = E.symval(st, E.nty('InkAttribute'), 'at', [attrs, z3.IntVal(0)])
    st.assume(z3.Implies(K.is_(st, the_cand(st), 'Some', 'Option'), K.t(st, parts(st)[1]) == (K.t(st, p0) == K.t(st, at0))))
    if fst_ is not None:
        st.assume(K.t(st, parts(st)[1]) == fst_)
    v5 = ver == 'V5'
    tr = lambda s, x: K.spec(s, 'InkArg::text_range', [x], 'TextRange')
    args_of = lambda s, x: K.t(s, K.fld(s, x, 'args', of='InkAttribute'))
    akind = lambda s, y: K.t(s, K.fld(s, y, 'kind', of='InkArg'))
    at = lambda s, seq, j, ty: E.symval(s, E.nty(ty), 'at', [seq, j])
    wj, wi = (z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ('first!attr', 'first!arg'))
    # the first argument of a kind, over all attributes
    def has(s, q):
        j, i = z3.Ints('j!h i!h')
        seq = args_of(s, at(s, attrs, j, 'InkAttribute'))
        return z3.Exists([j, i], z3.And(j >= 0, j < E.seq_len(s, attrs), i >= 0, i < E.seq_len(s, seq), akind(s, at(s, seq, i, 'InkArg')) == q))
    def first(s, q):
        return at(s, args_of(s, at(s, attrs, wj(q), 'InkAttribute')), wi(q), 'InkArg')
    def define(s):
        j, i = z3.Ints('j!d i!d')
        for n in ('Anonymous', 'SignatureTopic', 'Extension', 'AdditionalContracts', 'KeepAttr'):
            q = z3.IntVal(vi(K, 'InkArgKind', n))
            seq = args_of(s, at(s, attrs, wj(q), 'InkAttribute'))
            s.assume(z3.Implies(has(s, q), z3.And(wj(q) >= 0, wj(q) < E.seq_len(s, attrs), wi(q) >= 0, wi(q) < E.seq_len(s, seq), akind(s, first(s, q)) == q)))
            sj = args_of(s, at(s, attrs, j, 'InkAttribute'))
            s.assume(z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, i >= 0, z3.Or(z3.And(j < wj(q), i < E.seq_len(s, sj)), z3.And(j == wj(q), i < wi(q)))), akind(s, at(s, sj, i, 'InkArg')) != q)))
    def ctx(s):
        p, fst, kind = parts(s)
        is_, d, pl = mk_kind(K, s, kind)
        sib = K.t(s, K.spec(s, SIB, [kind, a[2]], 'Vec<InkArgKind>'))
        sug = K.t(s, K.spec(s, SUG, [kind, a[2]], 'Vec<InkAttributeKind>'))
        none = E.seq_len(s, sug) == 0
        A_ = lambda n: z3.IntVal(vi(K, 'InkArgKind', n))
        V = z3.BoolVal(v5)
        node = stx(K, s, K.fld(s, p, 'ast', of='InkAttribute'), 'Attr')
        within = E.seq_len(s, spec_seq(K, s, ANC, [node], 'ChainExtension')) > 0
        dep_ext = z3.And(V, is_('Arg', 'Extension'), within, has(s, A_('Extension')))
        dep_ac = z3.And(V, z3.Or(is_('Macro', 'E2ETest'), is_('Arg', 'AdditionalContracts')), has(s, A_('AdditionalContracts')))
        bail = z3.Or(dep_ext, z3.And(dep_ac, is_('Arg', 'AdditionalContracts')))
        return p, fst, kind, is_, d, pl, sib, sug, none, A_, V, dep_ext, dep_ac, bail
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        s = o.st
        b = E.branch(s, K.is_(s, the_cand(s), 'None', 'Option'))
        if b is not None:
            K.ob('nothing to report', b, z3.BoolVal(not evs))
        s = E.branch(s, K.is_(s, the_cand(s), 'Some', 'Option'))
        if s is None:
            continue
        define(s)
        p, fst, kind, is_, d, pl, sib, sug, none, A_, V, dep_ext, dep_ac, bail = ctx(s)
        here = nrange(K, s, K.fld(s, p, 'ast', of='InkAttribute'), 'Attr')
        an, si = A_('Anonymous'), A_('SignatureTopic')
        specs = []
        an_si = z3.And(V, z3.Or(is_('Macro', 'Event'), is_('Arg', 'Event', 'Anonymous', 'SignatureTopic')), has(s, an), has(s, si))
        ra, rs = tr(s, first(s, an)), tr(s, first(s, si))
        removal = lambda n: K.spec(s, REM, [first(s, A_(n))], 'TextRange')
        specs.append(('missing extension argument', z3.And(V, is_('Macro', 'ChainExtension'), z3.Not(has(s, A_('Extension')))), here))
        specs.append(('deprecated extension argument', dep_ext, tr(s, first(s, A_('Extension')))))
        ev_rng = later_of(K, s, ra, rs)
        specs.append(('anonymous and signature_topic', an_si, ev_rng))
        specs.append(('deprecated additional_contracts argument', dep_ac, removal('AdditionalContracts')))
        specs.append(('deprecated keep_attr argument', z3.And(V, is_('Macro', 'E2ETest'), has(s, A_('KeepAttr'))), removal('KeepAttr')))
        specs.append(('not the first attribute', z3.And(z3.Not(bail), z3.Not(K.t(s, fst)), none), here))
        seq = args_of(s, p)
        n = E.seq_len(s, seq)
        i, m = z3.Int('i!p'), z3.Int(f'm!{id(o) % 99991}')
        q = pl('Arg')
        any_ = z3.Exists([i], z3.And(i >= 0, i < n, akind(s, at(s, seq, i, 'InkArg')) == q))
        s.assume(z3.Implies(any_, z3.And(m >= 0, m < n, akind(s, at(s, seq, m, 'InkArg')) == q)))
        s.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), akind(s, at(s, seq, i, 'InkArg')) != q)))
        c7 = z3.And(z3.Not(bail), z3.Or(none, is_('Arg', 'Namespace')), d('Arg'), z3.Not(z3.And(n > 0, akind(s, at(s, seq, z3.IntVal(0), 'InkArg')) == q)))
        specs.append(('argument not first', z3.And(c7, any_), tr(s, at(s, seq, m, 'InkArg'))))
        specs.append(('argument not first', z3.And(c7, z3.Not(any_)), here))
        specs.append(('incomplete or ambiguous', z3.And(z3.Not(bail), z3.Not(none), z3.Not(is_('Arg', 'Namespace'))), here))
        rules(K, s, evs, specs)
        K.ob('every attribute is looked at unless the deciding one is deprecated', s, z3.If(z3.BoolVal(any(e[0] == '*' for e in evs)), z3.Not(bail), z3.Or(bail, E.seq_len(s, attrs) == 0)))
    hit = set()
    for sr in srcs:
        if not isinstance(sr.it, VSymIter):
            raise ToolLimit('source')
        outer_ = same(E, sr.it.src, attrs)
        for s, x, evs in sr.paths:
            p, fst, kind, is_, d, pl, sib, sug, none, A_, V, *_r = ctx(s)
            has_ = lambda seq, v: E.uf('contains', [seq, v], z3.BoolSort())
            its = s.ghost['its']
            if outer_:
                hit.add('attributes')
                idx = its[0][3]
                xk = K.fld(s, x, 'kind', of='InkAttribute')
                xis, xd, xp = mk_kind(K, s, xk)
                ok = z3.If(d('Macro'), z3.And(V, is_('Macro', 'ScaleDerive', 'StorageItem'), xis('Macro', 'ScaleDerive', 'StorageItem')),
                           z3.If(xd('Macro'), has_(sug, K.t(s, xk)), has_(sib, xp('Arg'))))
                skip = z3.Or(K.t(s, x) == K.t(s, p), z3.And(idx == 0, z3.Not(K.t(s, fst))), ok)
                iff(K, s, 'attribute in conflict', evs, z3.Not(skip), nrange(K, s, K.fld(s, x, 'ast', of='InkAttribute'), 'Attr'))
                K.ob('the arguments of all other attributes are looked at', s, z3.If(z3.BoolVal(any(e[0] == '*' for e in evs)), skip, z3.Or(z3.Not(skip), E.seq_len(s, args_of(s, x)) == 0)))
            else:
                hit.add('arguments')
                xo = at(s, attrs, its[0][3], 'InkAttribute')
                K.ob('the arguments of the attribute', s, sr.it.src == args_of(s, xo))
                xis, xd, xp = mk_kind(K, s, K.fld(s, xo, 'kind', of='InkAttribute'))
                q = akind(s, x)
                own_ = z3.And(xd('Arg'), xp('Arg') == q)
                dep = z3.And(V, is_('Macro', 'E2ETest'), z3.Or(q == A_('AdditionalContracts'), q == A_('KeepAttr')))
                iff(K, s, 'argument in conflict', evs, z3.And(z3.Not(own_), z3.Not(has_(sib, q)), z3.Not(dep)), tr(s, x))
    for w in ('attributes', 'arguments'):
        if w not in hit:
            raise LostAnchor(w)

def later_of(K, s, ra, rs):
    sa, ss = (K.E.tr_parts(K.E, s, r)[0] for r in (ra, rs))
    return z3.If(sa < ss, K.t(s, rs), K.t(s, ra))

# arguments that need one of these beside them
NEEDS = {
    ('Arg', 'AdditionalContracts'): {'V4': 'Macro:E2ETest'}, ('Arg', 'Environment'): 'Macro:E2ETest', ('Arg', 'Backend'): {'V5': 'Macro:E2ETest'},
    ('Arg', 'Anonymous'): {'V4': 'Arg:Event', 'V5': 'Macro:Event Arg:Event'}, ('Arg', 'SignatureTopic'): {'V5': 'Macro:Event Arg:Event'},
    ('Arg', 'KeepAttr'): 'Macro:Contract Macro:TraitDefinition Macro:E2ETest', ('Arg', 'HandleStatus'): 'Arg:Extension',
    ('Arg', 'Namespace'): 'Macro:TraitDefinition Arg:Impl',
}
for _k in ('Decode', 'Encode', 'TypeInfo'):
    NEEDS[('Arg', _k)] = {'V5': 'Macro:ScaleDerive'}
for _k in ('Payable', 'Default', 'Selector'):
    NEEDS[('Arg', _k)] = 'Arg:Constructor Arg:Message'


# every call falls under one of these
SPLIT = [('V4', 'Macro', None, ()), ('V4', 'Arg', None, ())]
for _o, _ks in (('Macro', ('Event', 'ChainExtension', 'E2ETest')), ('Arg', ('Event', 'Anonymous', 'SignatureTopic', 'Extension', 'AdditionalContracts'))):
    SPLIT += [('V5', _o, k, (), *x) for k in _ks for x in ([(True,), (False,)] if _o == 'Arg' and k in ('Event', 'Anonymous', 'SignatureTopic') else [()])] + [('V5', _o, None, _ks)]
for _c in SPLIT:
    def _f(K, c=_c):
        entity(K, *c)
    _x = '' if len(_c) < 5 else f', {"" if _c[4] else "not "}first'
    _f.__doc__ = f'an attribute or argument is reported exactly if it conflicts with the deciding one, is out of order, incomplete or deprecated ({_c[0]}, decided by {_c[2] or "another"} {_c[1].lower()}{_x})'
    _f.__name__ = 'entity_' + '_'.join(str(x) for x in _c[:3] + _c[4:]).lower()
    contract(ENT, crate=A)(_f)

# which arguments ink! takes together: (macro or argument) -> arguments, per version (both, or V4 / V5)
SIBLINGS = {
    ('Macro', 'ChainExtension'): {'V5': 'Extension'}, ('Macro', 'Contract'): 'Env KeepAttr', ('Macro', 'Event'): {'V5': 'Anonymous SignatureTopic'},
    ('Macro', 'StorageItem'): 'Derive', ('Macro', 'TraitDefinition'): 'KeepAttr Namespace', ('Macro', 'ScaleDerive'): {'V5': 'Encode Decode TypeInfo'},
    ('Macro', 'E2ETest'): {'V4': 'AdditionalContracts Environment KeepAttr', 'V5': 'Backend Environment'},
    ('Arg', 'Event'): {'V4': 'Anonymous', 'V5': 'Anonymous SignatureTopic'}, ('Arg', 'SignatureTopic'): {'V5': 'Event'}, ('Arg', 'Anonymous'): 'Event',
    ('Arg', 'Impl'): 'Namespace', ('Arg', 'Constructor'): 'Default Payable Selector', ('Arg', 'Message'): 'Default Payable Selector', ('Arg', 'Env'): 'KeepAttr',
    ('Arg', 'Extension'): {'V4': 'HandleStatus'}, ('Arg', 'Function'): {'V5': 'HandleStatus'}, ('Arg', 'KeepAttr'): 'Env Namespace',
    ('Arg', 'Namespace'): 'KeepAttr Impl', ('Arg', 'HandleStatus'): {'V4': 'Extension', 'V5': 'Function'},
    ('Arg', 'Payable'): 'Constructor Default Message Selector', ('Arg', 'Default'): 'Constructor Message Payable Selector',
    ('Arg', 'Selector'): 'Constructor Default Message Payable',
}

def table(K, fn, want, ety, show):
    """the function gives exactly the listed set for every kind and version"""
    E = K.E
    st = State()
    a = K.args(fn, st)
    seen = set()
    for o in K.run(fn, a, st):
        is_, d, p = mk_kind(K, o.st, a[0])
        for outer in ('Macro', 'Arg'):
            for kind, _ in E.defs.enums[f'Ink{outer}Kind']:
                for ver in ('V4', 'V5'):
                    s = E.branch(o.st, z3.And(is_(outer, kind), K.t(o.st, a[1]) == vi(K, 'Version', ver)))
                    if s is None:
                        continue
                    seen.add((outer, kind, ver))
                    w = want.get((outer, kind), '')
                    w = set((w if isinstance(w, str) else w.get(ver, '')).split())
                    v = K.deref(s, o.val)
                    items = getattr(v, 'items', None)
                    if items is None:
                        raise ToolLimit('list')
                    got = [show(K, s, x) for x in items]
                    K.ob(f'{outer} {kind} {ver}: exactly these', s, z3.BoolVal(set(got) == w and len(got) == len(w)), info=str(got))
    K.ob('every kind and version', st, z3.BoolVal(len(seen) == 2 * sum(len(E.defs.enums[f'Ink{o}Kind']) for o in ('Macro', 'Arg'))))

def arg_name(K, s, x):
    t = z3.simplify(K.t(s, x))
    if not z3.is_int_value(t):
        raise ToolLimit('kind in a list')
    return K.E.defs.enums['InkArgKind'][t.as_long()][0]

@contract(SIB, crate=A)
def siblings(K):
    """the arguments that may stand beside each macro or argument, per version"""
    table(K, K.con.fn, SIBLINGS, 'InkArgKind', arg_name)

def kind_name(K, s, x):
    t = K.deref(s, x)
    for o in ('Macro', 'Arg'):
        if K.E.proves(s, K.is_(s, t, o, 'InkAttributeKind')) if hasattr(K.E, 'proves') else K.E.branch(s, z3.Not(K.is_(s, t, o, 'InkAttributeKind'))) is None:
            v = z3.simplify(K.t(s, K.payload(s, t, o)))
            if not z3.is_int_value(v):
                raise ToolLimit('kind in a list')
            return o + ':' + K.E.defs.enums[f'Ink{o}Kind'][v.as_long()][0]
    raise ToolLimit('kind in a list')

@contract(SUG, crate=A)
def needs(K):
    """what an argument that does not stand alone needs beside it, per version"""
    table(K, K.con.fn, NEEDS, 'InkAttributeKind', kind_name)


@contract(CAND, crate=A)
def decides(K):
    """the first known attribute of the highest rank (macros, entity arguments, other arguments) decides, and it is told whether it is the very first"""
    E = K.E
    fn = K.con.fn
    st = State()
    attrs = E.symval(st, E.nty('Vec<InkAttribute>'), 'attrs')
    seq = K.t(st, attrs)
    n = E.seq_len(st, seq)
    at = lambda s, j: E.symval(s, E.nty('InkAttribute'), 'at', [seq, j])
    ast = lambda s, x: K.fld(s, x, 'ast', of='InkAttribute')
    def rank(s, x):
        k = K.fld(s, x, 'kind', of='InkAttribute')
        is_, d, p = mk_kind(K, s, k)
        unknown = z3.Or(is_('Macro', 'Unknown'), is_('Arg', 'Unknown'))
        return unknown, z3.If(d('Macro'), 0, z3.If(is_('Arg', 'Constructor', 'Event', 'Extension', 'Function', 'Impl', 'Message', 'Storage', 'Topic'), 1, 2))
    j = z3.Int('j!r')
    for o in K.run(fn, [VSymIter(seq, 'InkAttribute')], st):
        s = o.st
        if o.panic:
            K.ob('no panic', s, z3.BoolVal(False))
            continue
        for s2, p in K.some(s, o.val):
            u, r = rank(s2, at(s2, j))
            inside = z3.And(j >= 0, j < n)
            if p is None:
                K.ob('nothing decides only if nothing is known', s2, z3.Implies(inside, u))
                continue
            x = E.get_field(s2, p[0], None, 0, 'InkAttribute')
            f = E.get_field(s2, p[0], None, 1, 'bool')
            ux, rx = rank(s2, x)
            K.ob('a known one', s2, z3.Not(ux))
            K.ob('none of a higher rank', s2, z3.Implies(z3.And(inside, z3.Not(u)), r >= rx))
            i = s2.ghost.get('idx')
            if i is None:
                raise LostAnchor('place of the deciding attribute')
            K.ob('one of them', s2, z3.And(i >= 0, i < n, K.t(s2, at(s2, i)) == K.t(s2, x)))
            K.ob('the first of its rank', s2, z3.Implies(z3.And(j >= 0, j < i, z3.Not(u)), r > rx))
            same_ = K.eq(s2, nrange(K, s2, ast(s2, x), 'Attr'), nrange(K, s2, ast(s2, at(s2, z3.IntVal(0))), 'Attr'))
            K.ob('told whether it is the first', s2, K.t(s2, f) == same_)
