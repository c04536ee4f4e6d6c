"""P18: hovers and inlay hints describe what they are shown at."""
import z3
import kit
from kit import *
from diaglib import *
from p15 import mk_kind
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['rust-analyzer\'s tree (tokens at an offset, covering elements, ranges) is a function of the source text']
A = 'ana'
IR = 'ir'
ALSO = ('ir',)
H = 'analysis::hover::'
COV = UT + 'covering_ink_attribute'

# headline of each documentation text, what else tells the ink! v4 text from the v5 one
def doc(head, *more):
    return ('# Attribute\n\n`#[' + head, more)

def depr(name):
    return ('', (f'`{name}`', 'deprecated'))

NONE = ''
DOCS = {
    ('Arg', 'AdditionalContracts'): {'V4': doc('ink_e2e::test(additional_contracts = '), 'V5': depr('additional_contracts')},
    ('Arg', 'Anonymous'): {'V4': doc('ink(anonymous)]'), 'V5': doc('ink::event(anonymous)]')},
    ('Arg', 'Constructor'): doc('ink(constructor)]'),
    ('Arg', 'Decode'): {'V5': doc('ink::scale_derive(Decode)]')},
    ('Arg', 'Default'): doc('ink(default)]'),
    ('Arg', 'Derive'): doc('ink::storage_item(derive = '),
    ('Arg', 'Encode'): {'V5': doc('ink::scale_derive(Encode)]')},
    ('Arg', 'Env'): doc('ink::contract(env = '), ('Arg', 'Environment'): doc('ink::contract(env = ', '#[ink_e2e::test(environment = '),
    ('Arg', 'Event'): doc('ink(event)]'),
    ('Arg', 'Extension'): {'V4': doc('ink(extension = N: u32)]'), 'V5': doc('ink::chain_extension(extension = N: u16)]')},
    ('Arg', 'Function'): {'V5': doc('ink(function = N: u16)]')},
    ('Arg', 'HandleStatus'): doc('ink(handle_status = '),
    ('Arg', 'Impl'): doc('ink(impl)]'),
    ('Arg', 'KeepAttr'): {'V4': doc('ink::contract(keep_attr = ', '#[ink_e2e::test(keep_attr'), 'V5': doc('ink::contract(keep_attr = ')},
    ('Arg', 'Message'): doc('ink(message)]'),
    ('Arg', 'Namespace'): doc('ink(namespace = '),
    ('Arg', 'Payable'): doc('ink(payable)]'),
    ('Arg', 'Selector'): {'V4': doc('ink(selector = S: u32 | _)]'), 'V5': doc('ink(selector = S: u32 | _ | @)]')},
    ('Arg', 'SignatureTopic'): {'V5': doc('ink::event(signature_topic = ')},
    ('Arg', 'Storage'): doc('ink(storage)]'),
    ('Arg', 'Topic'): {'V4': doc('ink(topic)]', '!#[ink::event]'), 'V5': doc('ink(topic)]', '#[ink::event]')},
    ('Arg', 'TypeInfo'): {'V5': doc('ink::scale_derive(TypeInfo)]')},
    ('Macro', 'ChainExtension'): {'V4': doc('ink::chain_extension]', 'ink(extension = N: u32)'), 'V5': doc('ink::chain_extension]', 'ink(function = N: u16)')},
    ('Macro', 'Contract'): doc('ink::contract]'),
    ('Macro', 'Event'): {'V5': doc('ink::event]')},
    ('Macro', 'ScaleDerive'): {'V5': doc('ink::scale_derive]')},
    ('Macro', 'StorageItem'): doc('ink::storage_item]'),
    ('Macro', 'Test'): doc('ink::test]'),
    ('Macro', 'TraitDefinition'): doc('ink::trait_definition]'),
    ('Macro', 'E2ETest'): doc('ink_e2e::test]'),
}
for _k in ('Backend', 'Node', 'Url', 'RuntimeOnly', 'Sandbox'):
    DOCS[('Arg', _k)] = {'V5': doc('ink_e2e::test(backend(node|runtime_only))]')}

@contract(H + 'content', crate=A)
def content(K):
    """the documentation text of every macro and argument, per ink! version; unknown things and those the version does not have get none"""
    E = K.E
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    seen = set()
    for o in K.run(fn, a, st):
        is_, d, p = mk_kind(K, o.st, a[0])
        prim = K.deref(o.st, a[2])
        e2e = z3.And(some_(K, o.st, prim), mk_kind(K, o.st, K.deref(o.st, pay(K, o.st, prim)))[0]('Macro', 'E2ETest'))
        for outer in ('Macro', 'Arg'):
            for kind, _ in E.defs.enums[f'Ink{outer}Kind']:
                for ver in ('V4', 'V5'):
                    for on_e2e in (True, False):
                        c = z3.And(is_(outer, kind), K.t(o.st, a[1]) == vi(K, 'Version', ver), e2e == on_e2e)
                        s = E.branch(o.st, c)
                        if s is None:
                            continue
                        seen.add((outer, kind, ver, on_e2e))
                        w = DOCS.get((outer, kind), NONE)
                        w = w.get(ver, NONE) if isinstance(w, dict) else w
                        if kind == 'KeepAttr' and ver == 'V5' and on_e2e:
                            w = depr('keep_attr')
                        t = z3.simplify(K.t(s, o.val))
                        if not z3.is_string_value(t):
                            raise ToolLimit('documentation text')
                        t = t.as_string()
                        t = t.replace('\\u{a}', '\n')
                        if w == NONE:
                            K.ob(f'{outer} {kind} {ver}: no text', s, z3.BoolVal(t == ''))
                        else:
                            ok = t.strip().startswith(w[0]) and all(m[1:] not in t if m.startswith('!') else m in t for m in w[1])
                            K.ob(f'{outer} {kind} {ver}: its text', s, z3.BoolVal(ok), info=t[:200])
    K.ob('every kind and version', st, z3.BoolVal(len(seen) == 4 * sum(len(E.defs.enums[f'Ink{o}Kind']) for o in ('Macro', 'Arg'))))

def name_range(K, s, x):
    """(has a valid name, its range) of an argument"""
    n = K.spec(s, 'InkArg::name', [x], 'Option<&MetaName>')
    return some_(K, s, n), trange(K, s, K.E.get_field(s, K.deref(s, pay(K, s, n)), None, 0, 'SyntaxToken'))

def OPT(variant, *v):
    return VAdt('Option<InkAttributeKind>', variant, dict(enumerate(v)))

@contract(H + 'hover', crate=A)
def hover(K):
    """inside an ink! attribute the text of the first argument that covers the range, at that argument's name; else the attribute's own, at its macro or
    argument name; nothing anywhere else, and nothing where there is no text"""
    E = K.E
    fn = K.con.fn
    K.opaque(COV, H + 'content', 'InkArg::name', 'InkArg::text_range')
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        c = K.spec(s, COV, [a[0], a[1]], 'Option<InkAttribute>')
        got = some_(K, s, o.val)
        none = E.branch(s, z3.Not(some_(K, s, c)))
        if none is not None:
            K.ob('nothing outside ink! attributes', none, z3.Not(got))
        s = E.branch(s, some_(K, s, c))
        if s is None:
            continue
        x = K.deref(s, pay(K, s, c))
        args = K.t(s, K.fld(s, x, 'args'))
        n = E.seq_len(s, args)
        j = z3.Int('j!arg')
        lo, hi = E.tr_parts(E, s, a[1])
        def covers(s, i):
            l, h = E.tr_parts(E, s, K.spec(s, 'InkArg::text_range', [E.symval(s, E.nty('InkArg'), 'at', [args, i])], 'TextRange'))
            return z3.And(l <= lo, hi <= h)
        rng, txt = (lambda s: K.fld(s, K.deref(s, pay(K, s, o.val)), 'range')), (lambda s: K.fld(s, K.deref(s, pay(K, s, o.val)), 'content'))
        kind = K.fld(s, x, 'kind')
        def judge(s, k, prim, where, what):
            # ink! has a text for it: shown there; else nothing
            d = K.spec(s, H + 'content', [k, a[2], prim], 'String')
            has = K.t(s, d) != z3.StringVal('')
            K.ob(f'{what}: shown exactly if there is a text', s, some_(K, s, o.val) == has)
            b = E.branch(s, some_(K, s, o.val))
            if b is not None:
                K.ob(f'{what}: its text', b, K.eq(b, txt(b), d))
                for c_, r in where:
                    K.ob(f'{what}: at its name', b, z3.Implies(c_, K.eq(b, rng(b), r)))
        hit = s.fork()
        i = z3.Int('i!arg')
        hit.assume(z3.And(i >= 0, i < n, covers(hit, i), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.Not(covers(hit, j))))))
        if E.feasible(hit):
            g = E.symval(hit, E.nty('InkArg'), 'at', [args, i])
            ak = VAdt('InkAttributeKind', 'Arg', {0: K.fld(hit, g, 'kind')})
            same_kind = K.eq(hit, kind, ak)
            hn, nr = name_range(K, hit, g)
            where = [(hn, nr), (z3.Not(hn), K.spec(hit, 'InkArg::text_range', [g], 'TextRange'))]
            b = E.branch(hit, same_kind)
            if b is not None:
                judge(b, ak, OPT('None'), where, 'argument')
            b = E.branch(hit, z3.Not(same_kind))
            if b is not None:
                judge(b, ak, OPT('Some', kind), where, 'argument beside the primary one')
        miss = s.fork()
        miss.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(covers(miss, j)))))
        if E.feasible(miss):
            m, an = K.fld(miss, x, 'ink_macro'), K.fld(miss, x, 'ink_arg_name')
            whole = nrange(K, miss, K.fld(miss, x, 'ast'), 'Attr')
            ia = K.is_(miss, kind, 'Arg', 'InkAttributeKind')
            hm, hn = some_(K, miss, m), some_(K, miss, an)
            judge(miss, kind, OPT('None'), [
                (z3.And(ia, hn), trange(K, miss, E.get_field(miss, K.deref(miss, pay(K, miss, an)), None, 0, 'SyntaxToken'))),
                (z3.And(ia, z3.Not(hn)), whole), (z3.And(z3.Not(ia), z3.Not(hm)), whole),
                (z3.And(z3.Not(ia), hm), nrange(K, miss, pay(K, miss, m), 'PathSegment'))], 'attribute')

IO = 'ItemAtOffset::'
ATTR_OF = 'closest_ancestor_ast_type'

@contract(COV, crate=A)
def covering(K):
    """the ink! attribute at a range is the attribute there, if it is an ink! one"""
    fn = K.con.fn
    K.opaque(UT + 'covering_attribute', 'InkAttribute::cast')
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        c = K.spec(s, UT + 'covering_attribute', [a[0], a[1]], 'Option<Attr>')
        i = K.spec(s, 'InkAttribute::cast', [pay(K, s, c)], 'Option<InkAttribute>')
        K.ob('an attribute that is one of ink!', s, some_(K, s, o.val) == z3.And(some_(K, s, c), some_(K, s, i)))
        K.ob('that one', s, z3.Implies(some_(K, s, o.val), K.eq(s, o.val, i)))

NEAREST = 'tree::ast_ext::closest_ancestor_ast_type'
EL = 'NodeOrToken<SyntaxNode,SyntaxToken>'

def iao(K, s, item, off):
    n = known(K, lambda m: m.split('@')[0].endswith("'InkEntity')::item_at_offset"), "('as', 'T', 'InkEntity')::item_at_offset")
    return ext(K, s, n, [item, off], 'ItemAtOffset')

@contract(UT + 'focused_element', crate=A)
def focused(K):
    """for an empty range the token in focus there, else the deepest element that covers the range, if the range lies in the text"""
    E = K.E
    fn = K.con.fn
    K.opaque(IO + 'focused_token')
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        lo, hi = E.tr_parts(E, s, a[1])
        got = some_(K, s, o.val)
        b = E.branch(s, lo == hi)
        if b is not None:
            t = K.spec(b, IO + 'focused_token', [iao(K, b, a[0], lo)], 'Option<SyntaxToken>')
            K.ob('a token exactly if one is in focus', b, got == some_(K, b, t))
            b = E.branch(b, got)
            if b is not None:
                K.ob('that token', b, K.eq(b, pay(K, b, o.val), VAdt(EL, 'Token', {0: pay(K, b, t)})))
        b = E.branch(s, lo != hi)
        if b is not None:
            root = ent(K, b, a[0], 'syntax', 'SyntaxNode')
            l, h = E.tr_parts(E, b, node_range(K, b, root))
            K.ob('an element exactly if the range lies in the text', b, got == z3.And(l <= lo, hi <= h))
            b = E.branch(b, got)
            if b is not None:
                K.ob('the covering element', b, K.eq(b, pay(K, b, o.val), ext(K, b, 'rowan::api::SyntaxNode::covering_element', [root, a[1]], EL)))

@contract(UT + 'covering_attribute', crate=A)
def attribute_at(K):
    """for an empty range the attribute around the token in focus, else the innermost attribute that covers the whole range"""
    E = K.E
    fn = K.con.fn
    K.opaque(UT + 'focused_element', IO + 'parent_attr', NEAREST)
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        lo, hi = E.tr_parts(E, s, a[1])
        b = E.branch(s, lo == hi)
        if b is not None:
            K.ob('the attribute around the token in focus', b, K.eq(b, o.val, K.spec(b, IO + 'parent_attr', [iao(K, b, a[0], lo)], 'Option<Attr>')))
        s = E.branch(s, lo != hi)
        if s is None:
            continue
        f = K.spec(s, UT + 'focused_element', [a[0], a[1]], f'Option<{EL}>')
        b = E.branch(s, z3.Not(some_(K, s, f)))
        if b is not None:
            K.ob('nothing outside the text', b, z3.Not(some_(K, b, o.val)))
        b = E.branch(s, some_(K, s, f))
        if b is None:
            continue
        e = K.deref(b, pay(K, b, f))
        node = K.is_(b, e, 'Node', 'NodeOrToken')
        own_ = tm(K, b, K.payload(b, e, 'Node'), 'AstNode', 'cast', 'Option<Attr>', ty='Attr')
        isattr = z3.And(node, some_(K, b, own_))
        # what casts is what can be cast; tokens are no attributes
        can = ext(K, b, known(K, lambda m: m.split('@')[0].endswith("'Attr', 'AstNode')::can_cast"), "('as', 'Attr', 'AstNode')::can_cast"),
                  [ext(K, b, known(K, lambda m: m.startswith('rowan::api::') and m.endswith('kind') and 'Syntax' not in m, 'rowan::api::kind'), [e], 'SyntaxKind')], 'bool')
        b.assume(K.t(b, can) == isattr)
        K.ob('the element itself if it is an attribute, else the attribute around it', b,
             K.t(b, o.val) == z3.If(isattr, K.t(b, own_), K.t(b, K.spec(b, NEAREST, [e], 'Option<Attr>'))))

@contract('traits::entity::InkEntity::item_at_offset', crate=IR)
def at_offset(K):
    """the place of an entity at an offset is looked up in its own tree, in its bounds only"""
    E = K.E
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        root = ent(K, s, a[0], 'syntax', 'SyntaxNode', T='Self')
        l, h = E.tr_parts(E, s, node_range(K, s, root))
        off = K.t(s, a[1])
        t = K.fld(s, o.val, 'token_at_offset')
        inside = z3.And(l <= off, off <= h)
        K.ob('the tokens there', s, z3.Implies(inside, K.eq(s, t, ext(K, s, 'rowan::api::SyntaxNode::token_at_offset', [root, a[1]], 'TokenAtOffset<SyntaxToken>'))))
        K.ob('none outside', s, z3.Implies(z3.Not(inside), K.is_(s, t, 'None', 'TokenAtOffset')))
        K.ob('the offset', s, K.eq(s, K.fld(s, o.val, 'offset'), a[1]))

@contract(IO + 'focused_token', crate=IR)
def token(K):
    """between two tokens the left one, unless only the left one is trivia"""
    E = K.E
    fn = K.con.fn
    st = State()
    a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        t = K.fld(s, a[0], 'token_at_offset')
        got = some_(K, s, o.val)
        K.ob('none exactly outside the text', s, got == z3.Not(K.is_(s, t, 'None', 'TokenAtOffset')))
        b = E.branch(s, got)
        if b is None:
            continue
        v = K.deref(b, pay(K, b, o.val))
        L, R = (K.payload(b, t, 'Between', i) for i in (0, 1))
        triv = lambda x: K.t(b, ext(K, b, 'ra_ap_parser::syntax_kind::is_trivia', [ext(K, b, 'rowan::api::SyntaxToken::kind', [x], 'SyntaxKind')], 'bool'))
        K.ob('the only token', b, z3.Implies(K.is_(b, t, 'Single', 'TokenAtOffset'), K.eq(b, v, K.payload(b, t, 'Single'))))
        right = z3.And(triv(L), z3.Not(triv(R)))
        K.ob('the left one, or the right one if only the left one is trivia', b, z3.Implies(K.is_(b, t, 'Between', 'TokenAtOffset'),
             z3.If(right, K.eq(b, v, R), K.eq(b, v, L))))

@contract(IO + 'parent_attr', crate=IR)
def around(K):
    """the attribute around the token in focus, and if it is one of ink!"""
    E = K.E
    K.opaque(IO + 'focused_token', NEAREST, 'InkAttribute::cast')
    st = State()
    for fn in (IO + 'parent_attr', IO + 'parent_ink_attr'):
        a = K.args(fn, st)
        for o in K.run(fn, a, st):
            s = o.st
            f = K.spec(s, IO + 'focused_token', [a[0]], 'Option<SyntaxToken>')
            at = K.spec(s, NEAREST, [pay(K, s, f)], 'Option<Attr>')
            ink = K.spec(s, 'InkAttribute::cast', [pay(K, s, at)], 'Option<InkAttribute>')
            there = z3.And(some_(K, s, f), some_(K, s, at))
            if fn.endswith('parent_ink_attr'):
                there, at = z3.And(there, some_(K, s, ink)), ink
            K.ob('an attribute exactly if there is one around', s, some_(K, s, o.val) == there)
            K.ob('that one', s, z3.Implies(some_(K, s, o.val), K.eq(s, o.val, at)))

@contract('Analysis::hover', crate=A)
def entry(K):
    """asked of the file and ink! version of this document"""
    for fn, inner, ty in (('Analysis::hover', H + 'hover', 'Option<Hover>'), ('Analysis::inlay_hints', 'analysis::inlay_hints::inlay_hints', 'Vec<InlayHint>')):
        K.opaque(inner)
        st = State()
        a = K.args(fn, st)
        for o in K.run(fn, a, st):
            K.ob(f'{fn}: this file, range and version', o.st, K.eq(o.st, o.val, K.spec(o.st, inner, [K.fld(o.st, a[0], 'file'), a[1], K.fld(o.st, a[0], 'version')], ty)))

VK = 'InkArgValueKind::'
FROM = '<InkArgValueKind as From<InkArgKind>>::from'
STR = lambda k: ('String', k)
PATH = lambda k: ('Path', k)
TAKES = {'AdditionalContracts': STR('SpaceList'), 'Backend': ('Choice', 'Node', 'RuntimeOnly', True), 'Env': PATH('Environment'), 'Environment': PATH('Environment'),
         'Extension': {'V4': ('U32',), 'V5': ('U16',)}, 'Function': ('U16',), 'HandleStatus': ('Bool',), 'Derive': ('Bool',), 'KeepAttr': STR('CommaList'),
         'Namespace': STR('Identifier'), 'Node': ('Arg', 'Url', False), 'RuntimeOnly': ('Arg', 'Sandbox', False), 'Sandbox': PATH('Sandbox'),
         'Selector': {'V4': ('U32OrWildcard',), 'V5': ('U32OrWildcardOrComplement',)}, 'SignatureTopic': STR('Hex'), 'Url': STR('Url')}

def is_value_kind(K, s, v, w):
    c = [K.is_(s, v, w[0], 'InkArgValueKind')]
    en = {'String': ['InkArgValueStringKind'], 'Path': ['InkArgValuePathKind'], 'Arg': ['InkArgKind', None], 'Choice': ['InkArgKind', 'InkArgKind', None]}.get(w[0], [])
    for i, (e, x) in enumerate(zip(en, w[1:])):
        p = K.t(s, K.payload(s, v, w[0], i))
        c.append(p == (vi(K, e, x) if e else z3.BoolVal(x)))
    return z3.And(c)

@contract(VK + 'from_v5', crate=IR)
def takes(K):
    """the kind of value every argument takes, per ink! version; `@` is for messages only"""
    E = K.E
    for ver, fn in (('V4', FROM), ('V5', VK + 'from_v5')):
        st = State()
        a = K.args(fn, st)
        for o in K.run(fn, a, st):
            s = o.st
            for k, _ in E.defs.enums['InkArgKind']:
                w = TAKES.get(k, ('None',))
                w = w[ver] if isinstance(w, dict) else w
                is_k = K.t(s, a[0]) == vi(K, 'InkArgKind', k)
                if ver == 'V5' and k == 'Selector':
                    con = z3.And(some_(K, s, a[1]), K.t(s, pay(K, s, a[1])))
                    K.ob('selectors of constructors', s, z3.Implies(z3.And(is_k, con), is_value_kind(K, s, o.val, ('U32OrWildcard',))))
                    is_k = z3.And(is_k, z3.Not(con))
                K.ob(f'{k} {ver}', s, z3.Implies(is_k, is_value_kind(K, s, o.val, w)))

LABEL = {('U16',): 'u16', ('U32',): 'u32', ('U32OrWildcard',): 'u32 | _', ('U32OrWildcardOrComplement',): 'u32 | _ | @', ('Bool',): 'bool'}

LABELS = [(('String', None), '&str'), (('Path', 'Environment'), 'impl Environment'), (('Path', 'Sandbox'), 'impl drink::Sandbox'), (('Path', 'Default'), 'Path')] + [(k, v) for k, v in LABEL.items()]
DETAIL = {('Path', 'Environment'): 'A `ink::env::Environment` implementation.', ('Path', 'Sandbox'): 'A `drink::Sandbox` implementation.',
          ('String', 'CommaList'): 'A comma separated list.', ('String', 'Hex'): 'A 32 byte hex string.', ('String', 'Identifier'): 'A valid Rust identifier.',
          ('String', 'SpaceList'): 'A space separated list.', ('String', 'Url'): 'A URL.'}

@contract(VK + 'detail', crate=IR)
def detail(K):
    """what is said of the value beside its kind"""
    E = K.E
    fn = K.con.fn
    E.plain_display |= {'InkArgKind'}
    st = State()
    a = K.args(fn, st)
    show = lambda s, x: K.t(s, E.symval(s, E.nty('String'), 'display:InkArgKind:Int', [K.t(s, x)]))
    for o in K.run(fn, a, st):
        s = o.st
        v = K.deref(s, a[0])
        t = K.t(s, o.val)
        rest = []
        for w, txt in DETAIL.items():
            c = is_value_kind(K, s, v, w)
            rest.append(c)
            K.ob(f'{w}', s, z3.Implies(c, t == z3.StringVal(txt)))
        c = z3.And(K.is_(s, v, 'Arg', 'InkArgValueKind'), K.t(s, K.payload(s, v, 'Arg', 1)))
        rest.append(c)
        K.ob('an argument that must be there: its name', s, z3.Implies(c, t == show(s, K.payload(s, v, 'Arg', 0))))
        c = z3.And(K.is_(s, v, 'Choice', 'InkArgValueKind'), K.t(s, K.payload(s, v, 'Choice', 2)))
        rest.append(c)
        K.ob('a choice: both names', s, z3.Implies(c, t == z3.Concat(show(s, K.payload(s, v, 'Choice', 0)), z3.StringVal(' | '), show(s, K.payload(s, v, 'Choice', 1)))))
        K.ob('nothing else', s, z3.Or(rest + [t == z3.StringVal('')]))

HINTS = 'analysis::inlay_hints::inlay_hints'

@contract(HINTS, crate=A)
def hints(K):
    """every argument of every attribute in the file, and what is nested in it, is looked at once; a hint is shown for it exactly if it lies in the range
    asked for and takes a value, at the end of its name (or of the argument), with the kind of value it takes in this ink! version"""
    E = K.E
    fn = K.con.fn
    E.plain_display |= {'InkArgValueKind'}
    SC = 'InkTree::ink_attrs_in_scope'
    iters(K, SC, 'InkAttribute')
    K.opaque(FROM, VK + 'from_v5', VK + 'detail', 'InkArg::name', 'InkArg::text_range', 'InkArg::nested')
    st = State()
    st.ghost['log'] = []
    E.log_sort, E.log_new = 'Vec<InlayHint>', True
    E.cut_fns.add(fn)
    makers = [n for n, b in K.crate.bodies.items() if n.startswith('analysis::inlay_hints::') and any(t.endswith('InkArg') and t.count('&') == 1 for t in b.argtys[1:]) and b.argtys[-1] == 'bool']
    if len(makers) != 1:
        raise LostAnchor('what makes a hint of an argument')
    caught = []
    def maker(E_, s, func, args, dty):
        if not caught:
            caught.append((args[0], s.fork()))
        s.ghost['log'] = list(s.ghost['log']) + [('call', 'hint', tuple(args[1:]))]
        yield Outcome(s, UNIT)
    E.contracts[makers[0]] = maker
    a = K.args(fn, st)
    entries = []
    def inv(E_, fr, s, phase):
        if phase == 'entry':
            entries.append(s)
    E.loop_invs[fn] = inv
    outs = K.run(fn, a, st)
    its = E.iterations[fn]
    if len(its) != len(entries):
        raise ToolLimit('loops')
    for o in outs:
        if not (is_term(K.deref(o.st, o.val)) and str(K.deref(o.st, o.val)) == 'log!new'):
            raise ToolLimit('the list of hints' + str(K.deref(o.st, o.val)))
        K.ob('nothing outside the loops', o.st, z3.BoolVal(not own(o.st.ghost['log'])))
    d = lambda s: len(s.ghost.get('its', ()))
    calls = lambda b, pre: [e for e in b.ghost['log'][len(pre.ghost['log']):] if e[0] == 'call']
    con = lambda s, x: kind_is_(K, s, K.fld(s, x, 'kind'), 'Constructor')
    def source(b, k, seq, what):
        v = b.ghost['its'][k][0]
        if not isinstance(v, VSymIter) or v.stages:
            raise ToolLimit(what + ': source of the elements')
        K.ob(f'{what}: all of them', b, v.src == K.t(b, seq))
    cell = {}
    n = {0: 0, 1: 0, 2: 0}
    for (bb, fr, pre, back, os_), s0 in zip(its, entries):
        inner = [b for b in back if d(b) == d(pre)]
        if len(inner) not in (0, len(back)) or d(pre) > 2:
            raise ToolLimit('loops')
        for b in inner:
            # an argument nested in another: one step down
            if d(pre) != 2:
                raise ToolLimit('loops')
            x, g = b.ghost['its'][0][1], b.ghost['its'][1][1]
            cs = [c for c, v in pre.cells.items() if K.tyname(v) == 'Option<InkArg>' and not E.same(b.cells.get(c), v)]
            if len(cs) != 1:
                raise ToolLimit('the argument reached')
            cell.setdefault(bb, cs[0])
            got = calls(b, pre)
            K.ob('nested: looked at once', b, z3.BoolVal(len(got) == 1))
            p = pre.cells[cs[0]]
            cur = z3.If(some_(K, b, p), K.t(b, pay(K, b, p)), K.t(b, g))
            nx = K.spec(b, 'InkArg::nested', [cur], 'Option<InkArg>')
            K.ob('nested: starts at the argument', s0, K.is_(s0, s0.cells[cs[0]], 'None', 'Option'))
            K.ob('nested: there is one', b, some_(K, b, nx))
            K.ob('nested: goes down to it', b, z3.And(some_(K, b, b.cells[cs[0]]), K.eq(b, pay(K, b, b.cells[cs[0]]), pay(K, b, nx))))
            for e in got:
                K.ob('nested: that one', b, K.eq(b, e[2][0], pay(K, b, nx)))
                K.ob('nested: of a constructor or not', b, K.t(b, e[2][1]) == con(b, x))
            n[2] += 1
        if inner:
            continue
        for b in back:
            k = d(pre)
            n[k] += 1
            if k == 0:
                source(b, 0, spec_seq(K, b, SC, [known_tree(K, b, a[0])], 'InkAttribute'), 'attributes')
                K.ob('attributes: their arguments are looked at', b, z3.BoolVal(any(e[0] == '*' for e in b.ghost['log'][len(pre.ghost['log']):]) and not calls(b, pre)))
            else:
                x, g = b.ghost['its'][0][1], b.ghost['its'][1][1]
                source(b, 1, K.fld(b, x, 'args'), 'arguments')
                got = calls(b, pre)
                K.ob('arguments: looked at once', b, z3.BoolVal(len(got) == 1))
                for e in got:
                    K.ob('arguments: that one', b, K.eq(b, e[2][0], g))
                    K.ob('arguments: of a constructor or not', b, K.t(b, e[2][1]) == con(b, x))
                down = [e[2] for e in b.ghost['log'][len(pre.ghost['log']):] if e[0] == '*']
                K.ob('arguments: what is nested is looked at', b, z3.BoolVal(len(down) == 1))
                for bb2 in down:
                    if bb2 not in cell or cell[bb2] not in b.cells:
                        raise ToolLimit('the argument reached')
                    p = b.cells[cell[bb2]]
                    cur = z3.If(some_(K, b, p), K.t(b, pay(K, b, p)), K.t(b, g))
                    K.ob('nested: down to the last', b, z3.Not(some_(K, b, K.spec(b, 'InkArg::nested', [cur], 'Option<InkArg>'))))
    if not all(n.values()) or not caught:
        raise LostAnchor('loops over attributes, arguments and nested arguments')
    # what is done with one argument
    fv, s = caught[0]
    del E.contracts[makers[0]]
    s = s.fork()
    s.ghost['log'] = []
    g, c = E.symval(s, E.nty('InkArg'), 'an argument'), z3.Bool('of a constructor')
    b_ = K.body(makers[0])
    E.crate_stack.append(K.crate)
    try:
        os_ = E.exec_body(b_, [fv, g, c], s)
    finally:
        E.crate_stack.pop()
    for o in os_:
        s = o.st
        if o.panic is not None:
            K.ob('no panic', s, z3.BoolVal(False))
            continue
        rg = K.deref(s, a[1])
        tr = K.spec(s, 'InkArg::text_range', [g], 'TextRange')
        l, h = E.tr_parts(E, s, tr)
        lo, hi = E.tr_parts(E, s, pay(K, s, rg))
        inside = z3.Or(z3.Not(some_(K, s, rg)), z3.And(lo <= l, h <= hi))
        k = K.fld(s, g, 'kind')
        v5 = K.t(s, a[2]) == vi(K, 'Version', 'V5')
        vk = z3.If(v5, K.t(s, K.spec(s, VK + 'from_v5', [k, VAdt('Option<bool>', 'Some', {0: c})], 'InkArgValueKind')), K.t(s, K.spec(s, FROM, [k], 'InkArgValueKind')))
        lab = K.t(s, E.symval(s, E.nty('String'), 'display:InkArgValueKind:InkArgValueKind', [vk]))
        evs = own(s.ghost['log'])
        K.ob('a hint exactly if in the range and it takes a value', s, z3.And(inside, lab != z3.StringVal('')) == z3.BoolVal(len(evs) == 1) if len(evs) < 2 else z3.BoolVal(False))
        for e in evs:
            hn, nr = name_range(K, s, g)
            r = z3.If(hn, K.t(s, nr), K.t(s, tr))
            hint = e[1]
            K.ob('its label', s, K.t(s, K.fld(s, hint, 'label')) == lab)
            K.ob('at its name', s, K.t(s, K.fld(s, hint, 'range')) == r)
            K.ob('after its name', s, K.t(s, K.fld(s, hint, 'position')) == z3.If(hn, E.tr_parts(E, s, nr)[1], h))
            dt = K.t(s, K.spec(s, VK + 'detail', [vk], 'String'))
            dv = K.fld(s, hint, 'detail')
            K.ob('its detail if there is one', s, some_(K, s, dv) == (dt != z3.StringVal('')))
            K.ob('that detail', s, z3.Implies(some_(K, s, dv), K.eq(s, pay(K, s, dv), dt)))

def kind_is_(K, s, k, name):
    return z3.And(K.is_(s, k, 'Arg', 'InkAttributeKind'), K.t(s, K.payload(s, k, 'Arg')) == vi(K, 'InkArgKind', name))

def known_tree(K, s, f):
    return ext(K, s, known(K, lambda m: m.split('@')[0].endswith("'InkFile', 'InkEntity')::tree"), "('as', 'InkFile', 'InkEntity')::tree"), [f], 'InkTree')

@contract('<InkArgValueKind as Display>::fmt', crate=IR)
def label(K):
    """how a kind of value is shown"""
    E = K.E
    K.body(K.con.fn)
    E.plain_display |= {'InkArgKind'}
    st = State()
    v = E.symval(st, E.nty('InkArgValueKind'), 'value kind')
    show = lambda s, x: K.t(s, E.symval(s, E.nty('String'), 'display:InkArgKind:Int', [K.t(s, x)]))
    for o in E.fmt_value(E, st, v, 'InkArgValueKind'):
        s = o.st
        if o.panic:
            K.fail('no panic', str(o.panic))
            continue
        K.reach += 1
        t = K.t(s, o.val)
        rest = []
        for w, txt in LABELS:
            c = is_value_kind(K, s, v, w if w[-1] is not None else w[:1])
            rest.append(c)
            K.ob(f'{w}', s, z3.Implies(c, t == z3.StringVal(txt)))
        c = z3.And(K.is_(s, v, 'Arg', 'InkArgValueKind'), K.t(s, K.payload(s, v, 'Arg', 1)))
        K.ob('an argument that must be there: its name', s, z3.Implies(c, t == show(s, K.payload(s, v, 'Arg', 0))))
        c2 = z3.And(K.is_(s, v, 'Choice', 'InkArgValueKind'), K.t(s, K.payload(s, v, 'Choice', 2)))
        K.ob('a choice: both names', s, z3.Implies(c2, t == z3.Concat(show(s, K.payload(s, v, 'Choice', 0)), z3.StringVal(' | '), show(s, K.payload(s, v, 'Choice', 1)))))
        K.ob('nothing else', s, z3.Or(rest + [c, c2, t == z3.StringVal('')]))
