"""P05: what the server announces and sends respects the client's capabilities."""
import z3
import kit
from kit import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['the lsp_types constants (encodings, code action kinds, sync kinds) are pairwise distinct values']
CC = 'lsp_types::ClientCapabilities'

def enc_consts(K, st):
    k = {n: K.E.term(st, K.E.eval_const(st, ('path', f'lsp_types::PositionEncodingKind::{n}'), 'lsp_types::PositionEncodingKind')) for n in ('UTF8', 'UTF16', 'UTF32')}
    st.assume(z3.Distinct(*k.values()))
    return k

@contract('utils::position_encoding')
def position_encoding(K):
    """the first of UTF-8 and UTF-32 in the client's list; UTF-16 if there is none"""
    E = K.E
    st = State()
    caps, = a = K.args('utils::position_encoding', st)
    k = enc_consts(K, st)
    for o in K.run('utils::position_encoding', a, st):
        s = o.st
        r = K.t(s, o.val)
        listed, lst = K.chain(s, caps, 'general?.position_encodings?', of=CC)
        n = E.seq_len(s, lst)
        i = z3.Int('i!enc')
        at = lambda j: E.uf('at', [E.term(s, lst), j], r.sort())
        good = lambda j: z3.Or(at(j) == k['UTF8'], at(j) == k['UTF32'])
        K.ob('one of the three standard encodings', s, z3.Or(r == k['UTF8'], r == k['UTF16'], r == k['UTF32']))
        w = z3.Int('w!enc')
        b = E.branch(s, r != k['UTF16'])
        if b is not None:
            K.ob('other than UTF-16 only if the client lists it', b, z3.And(listed, z3.Exists([w], z3.And(w >= 0, w < n, at(w) == r))))
            b.assume(z3.And(i >= 0, i < n, good(i), z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < i), z3.Not(good(w))))))
            K.ob('it is the first of UTF-8/UTF-32 listed', b, r == at(i))
        c = E.branch(s, r == k['UTF16'])
        if c is not None:
            c.assume(z3.And(listed, i >= 0, i < n))
            K.ob('UTF-16 only if neither UTF-8 nor UTF-32 is listed', c, z3.Not(good(i)))

@contract('utils::snippet_support')
def snippet_support(K):
    """true iff completion item snippet support is announced as true"""
    st = State()
    caps, = a = K.args('utils::snippet_support', st)
    for o in K.run('utils::snippet_support', a, st):
        c, v = K.chain(o.st, caps, 'text_document?.completion?.completion_item?.snippet_support?', of=CC)
        K.ob('exactly the announced value', o.st, K.t(o.st, o.val) == z3.And(c, K.t(o.st, v)))

@contract('utils::code_action_edit_resolve_support')
def resolve_support(K):
    """true iff the client can resolve the property named exactly "edit\""""
    E = K.E
    fn = 'utils::code_action_edit_resolve_support'
    st = State()
    caps, = a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        c, v = K.chain(s, caps, 'text_document?.code_action?.resolve_support?.properties', of=CC)
        h = E.coll_has(E, s, v, zstr('edit'))
        r = K.t(s, o.val)
        K.ob('only if announced', s, z3.Implies(r, z3.And(c, h)))
        K.ob('if announced', s, z3.Implies(z3.And(c, h), r))

@contract('utils::signature_support')
def signature_support(K):
    """both features exactly as announced, false when absent"""
    fn = 'utils::signature_support'
    st = State()
    caps, = a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        p = 'text_document?.signature_help?.signature_information?.'
        for f, path in (('active_parameter_support', 'active_parameter_support?'), ('label_offset_support', 'parameter_information?.label_offset_support?')):
            c, v = K.chain(s, caps, p + path, of=CC)
            K.ob(f, s, K.t(s, K.fld(s, o.val, f)) == z3.And(c, K.t(s, v)))

@contract('utils::can_create_workspace_resources')
def can_create(K):
    """true iff applyEdit, documentChanges and the create operation are all announced"""
    E = K.E
    fn = 'utils::can_create_workspace_resources'
    st = State()
    caps, = a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        c1, v1 = K.chain(s, caps, 'workspace?.apply_edit?', of=CC)
        c2, v2 = K.chain(s, caps, 'workspace?.workspace_edit?.document_changes?', of=CC)
        c3, v3 = K.chain(s, caps, 'workspace?.workspace_edit?.resource_operations?', of=CC)
        h = E.coll_has(E, s, v3, z3.IntVal(E.defs.variant_index('ResourceOperationKind', 'Create')))
        want = z3.And(c1, K.t(s, v1), c2, K.t(s, v2), c3, h)
        r = K.t(s, o.val)
        K.ob('only if announced', s, z3.Implies(r, want))
        K.ob('if announced', s, z3.Implies(want, r))

KINDS = ('EMPTY', 'QUICKFIX', 'REFACTOR', 'REFACTOR_REWRITE')

@contract('utils::code_actions_kinds')
def kinds(K):
    """the kinds announced are exactly those both sides support; none is announced when there is no common kind or no literal support"""
    E = K.E
    fn = 'utils::code_actions_kinds'
    st = State()
    caps, = a = K.args(fn, st)
    ks = {n: E.term(st, E.eval_const(st, ('path', f'lsp_types::CodeActionKind::{n}'), 'lsp_types::CodeActionKind')) for n in KINDS}
    st.assume(z3.Distinct(*ks.values()))
    for o in K.run(fn, a, st):
        s = o.st
        c, v = K.chain(s, caps, 'text_document?.code_action?.code_action_literal_support?.code_action_kind.value_set', of=CC)
        j = z3.Int('j!kind')
        conv = E.call(s, '<lsp_types::CodeActionKind as std::convert::From<std::string::String>>::from', [E.uf('at', [E.term(s, v), j], z3.StringSort())], 'lsp_types::CodeActionKind')[0].val
        n = E.seq_len(s, v)
        client = {k: z3.Exists([j], z3.And(j >= 0, j < n, conv == t)) for k, t in ks.items()}
        for s2, pl in K.some(s, o.val):
            if pl is None:
                for k in KINDS:
                    K.ob(f'{k}: nothing announced only if not common', s2, z3.Not(z3.And(c, client[k])))
                continue
            K.ob('needs literal support', s2, c)
            got = K.deref(s2, pl[0])
            if not isinstance(got, VSeq):
                raise ToolLimit('kinds as ' + type(got).__name__)
            ts = [K.t(s2, x) for x in got.items]
            K.ob('not empty', s2, z3.BoolVal(len(ts) > 0))
            for x in ts:
                K.ob('announced kinds are the server\'s', s2, z3.Or([x == t for t in ks.values()]))
            for k, t in ks.items():
                K.ob(f'{k}: announced iff the client supports it', s2, z3.Or([x == t for x in ts] or [z3.BoolVal(False)]) == client[k])

@contract('initialize::server_capabilities')
def server_capabilities(K):
    """announces the negotiated encoding, full-text sync with open/close, every request the server answers and the three commands"""
    E = K.E
    K.opaque('utils::position_encoding', 'utils::code_actions_kinds')
    fn = 'initialize::server_capabilities'
    st = State()
    caps, = a = K.args(fn, st)
    SC = 'lsp_types::ServerCapabilities'
    for o in K.run(fn, a, st):
        s = o.st
        F = lambda p: K.chain(s, o.val, p, of=SC)
        c, v = F('position_encoding?')
        K.ob('negotiated encoding', s, z3.And(c, K.eq(s, v, K.spec(s, 'utils::position_encoding', [caps], 'PositionEncodingKind'))))
        c, v = F('text_document_sync?')
        K.ob('sync options', s, z3.And(c, K.is_(s, v, 'Options')))
        opt = K.payload(s, v, 'Options')
        c, v = K.chain(s, opt, 'open_close?')
        K.ob('open/close notifications', s, z3.And(c, K.t(s, v)))
        c, v = K.chain(s, opt, 'change?')
        full = E.term(s, E.eval_const(s, ('path', 'lsp_types::TextDocumentSyncKind::FULL'), 'lsp_types::TextDocumentSyncKind'))
        K.ob('full document sync', s, z3.And(c, K.t(s, v) == full))
        for f in ('hover_provider', 'completion_provider', 'code_action_provider', 'inlay_hint_provider', 'signature_help_provider', 'execute_command_provider'):
            K.ob(f'{f} announced', s, F(f + '?')[0])
        c, v = F('execute_command_provider?.commands')
        for cmd in ('createProject', 'migrateProject', 'extractEvent'):
            K.ob(f'command {cmd} announced', s, E.coll_has(E, s, v, zstr(cmd)))
        ck = K.spec(s, 'utils::code_actions_kinds', [caps], 'Option<Vec<CodeActionKind>>')
        c, v = F('code_action_provider?')
        K.ob('code action kinds announced iff common kinds exist', s, K.is_(s, v, 'Options') == K.is_(s, ck, 'Some'))
        b = E.branch(s, K.is_(s, ck, 'Some'))
        if b is not None:
            op = K.payload(b, v, 'Options')
            c, ks = K.chain(b, op, 'code_action_kinds?', of='lsp_types::CodeActionOptions')
            K.ob('exactly the common kinds', b, z3.And(c, K.eq(b, ks, K.payload(b, ck, 'Some'))))
            c, rp = K.chain(b, op, 'resolve_provider?', of='lsp_types::CodeActionOptions')
            K.ob('code actions can be resolved', b, z3.And(c, K.t(b, rp)))
        b = E.branch(s, K.is_(s, ck, 'None'))
        if b is not None:
            K.ob('plain code action support otherwise', b, z3.And(K.is_(b, v, 'Simple'), K.t(b, K.payload(b, v, 'Simple'))))
