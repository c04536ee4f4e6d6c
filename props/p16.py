"""P16: ink! attributes stand only where ink! takes them."""
import z3
import kit
from kit import *
from diaglib import *
from p13 import attr_kind, kind_is, attr_range, CLOSE, DESC, C, NODESC, QUASI
from p15 import table, arg_name, mk_kind
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['itertools sorted/sorted_by_key are stable sorts', 'different attributes of an item start at different places']
A = 'ana'
ALSO = ('ir',)
MAC, ARG = UT + 'valid_quasi_direct_descendant_ink_macros', UT + 'valid_quasi_direct_descendant_ink_args'
GENERAL = C + 'ensure_valid_quasi_direct_ink_descendants'

_con = 'Anonymous Constructor Default Event Impl Message Namespace Payable Selector Storage'
_imp = 'Constructor Default Message Payable Selector'
INSIDE_ARGS = {
    ('Macro', 'ChainExtension'): {'V4': 'Extension HandleStatus', 'V5': 'Function HandleStatus'},
    ('Macro', 'Contract'): {'V4': _con, 'V5': _con + ' SignatureTopic'},
    ('Macro', 'Event'): {'V5': 'Topic'}, ('Macro', 'TraitDefinition'): 'Default Message Payable Selector',
    ('Arg', 'Event'): 'Topic', ('Arg', 'Anonymous'): 'Topic', ('Arg', 'SignatureTopic'): {'V5': 'Topic'},
    ('Arg', 'Env'): _con, ('Arg', 'KeepAttr'): _con, ('Arg', 'Impl'): _imp, ('Arg', 'Namespace'): _imp,
}
_mac = 'ChainExtension StorageItem Test TraitDefinition E2ETest'
INSIDE_MACROS = {('Macro', 'Contract'): {'V4': _mac, 'V5': _mac + ' Event ScaleDerive'}}
for _k in ('ChainExtension', 'TraitDefinition', 'Test', 'E2ETest'):
    INSIDE_MACROS[('Macro', _k)] = {'V5': 'ScaleDerive'}

def macro_name(K, s, x):
    t = z3.simplify(K.t(s, x))
    if not z3.is_int_value(t):
        raise ToolLimit('kind in a list')
    return K.E.defs.enums['InkMacroKind'][t.as_long()][0]

@contract(ARG, crate=A)
def inside_args(K):
    """the arguments that may stand inside each kind of item, per version"""
    table(K, K.con.fn, INSIDE_ARGS, 'InkArgKind', arg_name)

@contract(MAC, crate=A)
def inside_macros(K):
    """the macros that may stand inside each kind of item, per version"""
    w = dict(INSIDE_MACROS)
    for k, _ in K.E.defs.enums['InkArgKind']:
        if k not in ('Storage', 'Event', 'Anonymous', 'SignatureTopic'):
            w[('Arg', k)] = {'V5': 'ScaleDerive'}
    table(K, K.con.fn, w, 'InkMacroKind', macro_name)

@contract(GENERAL, crate=A)
def general(K):
    """of each item closest inside, the attribute that decides it is reported there exactly if it is not taken there"""
    E = K.E
    fn = K.con.fn
    E.full_sort = True
    SIBS = 'InkAttribute::siblings'
    st = start(K, opaque=UTILS + ['tree::ast_ext::parent_ast_item'])
    iters(K, CLOSE, 'InkAttribute')
    iters(K, SIBS, 'InkAttribute')
    valid = {}
    a = K.args(fn, st)
    def is_valid(E_, s, x):
        return E.uf('taken here', [K.t(s, a[2]), K.t(s, x)], z3.BoolSort())
    def pred(E_, s, func, args, dty):
        t = K.deref(s, args[1]) if len(args) > 1 else None
        x = E.get_field(s, t, None, 0, '&InkAttribute') if not (is_term(t) and t.sort().name() == 'InkAttribute') else t
        yield Outcome(s, is_valid(E, s, K.deref(s, x)))
    for n in ('<F as Fn>::call', '<F as FnMut>::call_mut', '<F as FnOnce>::call_once'):
        E.contracts[n] = pred
    start_of = lambda s, x: E.tr_parts(E, s, attr_range(K, s, x))[0]
    def rank(s, x):
        is_, d, p = mk_kind(K, s, attr_kind(K, s, x))
        return z3.If(d('Macro'), 0, z3.If(is_('Arg', 'Constructor', 'Event', 'Extension', 'Function', 'Impl', 'Message', 'Storage', 'Topic'), 1, z3.If(is_('Arg', 'Unknown'), 3, 2)))
    def cmp(E_, s, func, args, dty):
        # proved for P09
        x, y = (rank(s, K.deref(s, q)) for q in args[:2])
        yield Outcome(s, z3.If(x < y, z3.IntVal(-1), z3.If(x == y, z3.IntVal(0), z3.IntVal(1))))
    E.contracts['<InkAttribute as Ord>::cmp'] = cmp
    # what is true of every attribute by its type
    x0 = E.symval(st, E.nty('InkAttribute'), 'attr!any')
    s1 = st.fork()
    rank(s1, x0), start_of(s1, x0)
    for f in s1.pc[len(st.pc):]:
        st.assume(z3.ForAll([K.t(st, x0)], f))
    fin, srcs = trace(K, fn, K.run(fn, a, st))
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))
    def per(s, x, evs):
        sib = spec_seq(K, s, SIBS, [x], 'InkAttribute')
        sib = K.t(s, sib)
        k = z3.Int('k!sib')
        n = E.seq_len(s, sib)
        y = E.symval(s, E.nty('InkAttribute'), 'at', [sib, k])
        s.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), start_of(s, y) != start_of(s, x)), patterns=[E.uf('at', [sib, k], K.t(s, y).sort())]))
        first = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Or(rank(s, y) > rank(s, x), z3.And(rank(s, y) == rank(s, x), start_of(s, y) > start_of(s, x)))), patterns=[E.uf('at', [sib, k], K.t(s, y).sort())])
        unknown = z3.Or(kind_is(K, s, x, 'Macro', 'InkMacroKind', 'Unknown'), kind_is(K, s, x, 'Arg', 'InkArgKind', 'Unknown'))
        iff(K, s, 'attribute out of place', evs, z3.And(z3.Not(unknown), first, z3.Not(is_valid(E, s, x))), attr_range(K, s, x))
    elems_of(K, fin, srcs, lambda s: spec_seq(K, s, CLOSE, [ent(K, s, a[1], 'tree', 'InkTree')], 'InkAttribute'), 'closest descendants', per)

def kinds_list(K, s, v):
    return v

@contract(QUASI, crate=A)
def by_kind(K):
    """inside an item stand exactly the kinds of its tables: nothing (or only scale_derive) is checked for all attributes inside, else those closest inside"""
    E = K.E
    fn = K.con.fn
    st = start(K, NODESC, GENERAL)
    a = K.args(fn, st)
    E.max_paths = 100000
    n = 0
    for o, evs in trace(K, fn, K.run(fn, a, st))[0]:
        evs = own(evs)
        is_, d, p = mk_kind(K, o.st, a[2])
        for outer in ('Macro', 'Arg'):
            for kind, _ in E.defs.enums[f'Ink{outer}Kind']:
                for ver in ('V4', 'V5'):
                    s = E.branch(o.st, z3.And(is_(outer, kind), K.t(o.st, a[3]) == vi(K, 'Version', ver)))
                    if s is None:
                        continue
                    n += 1
                    pick = lambda t: set((t.get((outer, kind), '') if isinstance(t.get((outer, kind), ''), str) else t[(outer, kind)].get(ver, '')).split())
                    args = pick(INSIDE_ARGS)
                    macros = pick(INSIDE_MACROS)
                    if outer == 'Arg' and ver == 'V5' and kind not in ('Storage', 'Event', 'Anonymous', 'SignatureTopic'):
                        macros = {'ScaleDerive'}
                    what = f'{outer} {kind} {ver}'
                    if len(evs) != 1 or evs[0][0] != 'call':
                        K.ob(what + ': one check', s, z3.BoolVal(False), info=str(evs)[:200])
                        continue
                    none = not args and not (macros - {'ScaleDerive'})
                    K.ob(what + ': the right check', s, z3.BoolVal(evs[0][1] == (NODESC if none else GENERAL)))
                    K.ob(what + ': of the item', s, K.eq(s, evs[0][2][0], a[1]))
                    if evs[0][1] == NODESC:
                        K.ob(what + ': scale_derive exactly if taken', s, K.t(s, evs[0][2][2]) == z3.BoolVal(bool(macros)))
                        continue
                    if none:
                        continue
                    f = evs[0][2][1]
                    x = E.symval(s, E.nty('InkAttribute'), 'attr!x')
                    xis, xd, xp = mk_kind(K, s, K.fld(s, x, 'kind', of='InkAttribute'))
                    want = z3.Or(xis('Macro', *macros) if macros else z3.BoolVal(False), xis('Arg', *args) if args else z3.BoolVal(False),
                                 xis('Arg', 'Extension') if (outer, kind, ver) == ('Macro', 'ChainExtension', 'V5') else z3.BoolVal(False))
                    for o2 in E.call_value(s, f, [x], 'bool'):
                        K.ob(what + ': takes exactly its kinds', o2.st, K.t(o2.st, o2.val) == want)
    if n < 2 * sum(len(E.defs.enums[f'Ink{o}Kind']) for o in ('Macro', 'Arg')):
        raise LostAnchor('kinds')

FILE_V4 = ('Contract', 'ChainExtension', 'StorageItem', 'TraitDefinition', 'Test', 'E2ETest')

@contract(D + 'file::ensure_valid_quasi_direct_ink_descendants', crate=A)
def of_file(K):
    """at the top of a file stand macros only (of ink! 4: its own)"""
    E = K.E
    fn = K.con.fn
    st = start(K, GENERAL)
    a = K.args(fn, st)
    for o, evs in trace(K, fn, K.run(fn, a, st))[0]:
        evs = own(evs)
        s = o.st
        if len(evs) != 1 or evs[0][0] != 'call':
            K.ob('one check', s, z3.BoolVal(False), info=str(evs)[:200])
            continue
        K.ob('of the file', s, K.eq(s, evs[0][2][0], a[1]))
        x = E.symval(s, E.nty('InkAttribute'), 'attr!x')
        xis, xd, xp = mk_kind(K, s, K.fld(s, x, 'kind', of='InkAttribute'))
        v4 = K.t(s, a[2]) == vi(K, 'Version', 'V4')
        for o2 in E.call_value(s, evs[0][2][1], [x], 'bool'):
            K.ob('takes exactly macros', o2.st, K.t(o2.st, o2.val) == z3.If(v4, xis('Macro', *FILE_V4), xd('Macro')))

for _m, _o, _k in (('contract', 'Macro', 'Contract'), ('chain_extension', 'Macro', 'ChainExtension'), ('contract::ink_impl', 'Arg', 'Impl')):
    def _f(K, _o=_o, _k=_k):
        """the scope rules of this kind run on the item"""
        fn = K.con.fn
        st = start(K, QUASI)
        a = K.args(fn, st)
        for o, evs in trace(K, fn, K.run(fn, a, st))[0]:
            evs = own(evs)
            s = o.st
            if len(evs) != 1 or evs[0][0] != 'call':
                K.ob('one check', s, z3.BoolVal(False), info=str(evs)[:200])
                continue
            g = evs[0][2]
            K.ob('of the item', s, K.eq(s, g[0], a[1]))
            K.ob('of its kind', s, z3.And(K.is_(s, g[1], _o, 'InkAttributeKind'), K.t(s, K.payload(s, g[1], _o)) == vi(K, f'Ink{_o}Kind', _k)))
            K.ob('of the version', s, K.eq(s, g[2], a[2]))
    _f.__name__ = 'of_' + _m.split('::')[-1]
    contract(D + _m + '::ensure_valid_quasi_direct_ink_descendants', crate=A)(_f)

import p13
contract(NODESC, crate=A)(p13.no_descendants)
contract(D + 'event::ensure_only_ink_topic_descendants', crate=A)(p13.only_topics)
