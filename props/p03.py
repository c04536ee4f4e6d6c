"""P03: published diagnostics are those of the current text, with its version, for exactly the changed documents."""
import z3
import kit
from kit import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['Analysis::new/diagnostics and LineIndex::new are pure and deterministic functions of their arguments (uninterpreted here)',
               'Url::parse/Url::as_str are pure functions',
               'crossbeam Sender::send delivers the message or reports a disconnected client']


def url(K, st, u):
    return K.E.uf('url_str', [K.t(st, u)], z3.StringSort())

@contract('Snapshot::new')
def snapshot_new(K):
    """a snapshot is the analysis and the line index of the same text, the given document version and language version"""
    K.opaque('Analysis::new', 'LineIndex::new')
    st = State()
    content, enc, ver, lang = a = K.args('Snapshot::new', st)
    for o in K.run('Snapshot::new', a, st):
        s = o.st
        K.ob('document version', s, K.eq(s, K.fld(s, o.val, 'doc_version'), ver))
        K.ob('language version', s, K.eq(s, K.fld(s, o.val, 'lang_version'), lang))
        K.ob('position encoding', s, K.eq(s, K.fld(s, o.val, 'context.encoding'), enc))
        K.ob('analysis of this text in this language version', s, K.eq(s, K.fld(s, o.val, 'analysis'), K.spec(s, 'Analysis::new', [content, lang], 'Analysis')))
        K.ob('line index of this text', s, K.eq(s, K.fld(s, o.val, 'context.line_index'), K.spec(s, 'LineIndex::new', [content], 'LineIndex')))

PD = 'dispatch::actions::publish_diagnostics'

@contract(PD)
def publish(K):
    """parameters: the uri itself; for a known document every translatable diagnostic of its analysis and the document version, else none"""
    E = K.E
    K.opaque('to_lsp::diagnostic', 'Analysis::diagnostics')
    st = State()
    uri, snaps = a = K.args(PD, st)
    for o in K.run(PD, a, st):
        s = o.st
        K.ob('always succeeds', s, K.is_(s, o.val, 'Ok'))
        p = K.payload(s, o.val, 'Ok')
        K.ob('uri', s, K.eq(s, K.fld(s, p, 'uri', of='lsp_types::PublishDiagnosticsParams'), uri))
        key = url(K, s, uri)
        d = K.fld(s, p, 'diagnostics', of='lsp_types::PublishDiagnosticsParams')
        for s2, present, hit in K.lookup(s, snaps, key):
            if not present:
                K.ob('unknown document: no version', s2, K.is_(s2, K.fld(s2, p, 'version'), 'None'))
                K.ob('unknown document: diagnostics are cleared', s2, E.seq_len(s2, d) == 0)
                continue
            K.ob('version of the snapshot', s2, K.eq(s2, K.fld(s2, p, 'version'), K.fld(s2, hit, 'doc_version')))
            src = K.spec(s2, 'Analysis::diagnostics', [K.fld(s2, hit, 'analysis')], 'Vec<Diagnostic>')
            it = K.elems(s2, d)
            if not isinstance(it, VSymIter):
                raise ToolLimit('diagnostics are not an iterator over a symbolic sequence')
            K.ob('source of the diagnostics is the analysis of the snapshot', s2, it.src == src)
            for s3, item, kept, val in E.iter_elem(E, s2, it):
                want = K.spec(s3, 'to_lsp::diagnostic', [item, K.fld(s3, hit, 'context')], 'Option<Diagnostic>')
                K.ob('a diagnostic is published iff it is translatable', s3, z3.BoolVal(kept) == K.is_(s3, want, 'Some'))
                if kept:
                    K.ob('published diagnostic is the translation', s3, K.eq(s3, val, K.payload(s3, want, 'Some')))

PCH = 'Dispatcher::process_changes'

@contract(PCH)
def process_changes(K):
    """one arbitrary changed id: its snapshot becomes that of the stored text (absent if the document is gone), no other snapshot changes, and
    exactly one publishDiagnostics for its uri follows, computed from the updated snapshots (none only when the id is not a uri)"""
    E = K.E
    K.opaque('Snapshot::new', 'InkProjectVersion::guess_version', 'utils::position_encoding', 'dispatch::parse_ink_project_version', 'Url::parse')
    def pub(E, st, func, args, dty):
        bad = st.fork()
        bad.ghost['send_failed'] = True
        yield Outcome(bad, VAdt('Result<(),Error>', 'Err', {0: E.fresh(bad, ('adt', 'Error', ()), 'err')}))
        st.ghost['published'] = list(st.ghost.get('published', [])) + [(args[1], K.fld(st, args[0], 'snapshots'))]
        yield Outcome(st, VAdt('Result<(),Error>', 'Ok', {0: UNIT}))
    E.contracts['Dispatcher::publish_diagnostics'] = pub
    E.cut_fns.add(PCH)
    st = State()
    self_, = K.args(PCH, st)
    ch0 = K.fld(st, self_, 'memory.changes')
    def inv(E, fr, s, phase):
        q = E.symval(s, ('prim', 'str'), 'q!any')
        g = z3.Not(K.has(s, K.fld(s, self_, 'memory.changes'), q))
        if phase == 'assume':
            s.assume(g)
        else:
            K.ob(f'no change is recorded while changes are processed ({phase})', s, g)
    E.loop_invs[PCH] = inv
    outs = K.run(PCH, [self_], st)
    its = E.iterations.get(PCH)
    if not its:
        raise LostAnchor('loop over the changed documents')
    for o in outs:
        s = o.st
        K.ob('Ok unless the client is gone', s, K.is_(s, o.val, 'Err' if s.ghost.get('send_failed') else 'Ok'))
        q = E.symval(s, ('prim', 'str'), 'q!any')
        K.ob('no change is left pending', s, z3.Not(K.has(s, K.fld(s, self_, 'memory.changes'), q)))
    n = 0
    for bb, fr, pre, back, os_ in its:
        it = K.loop_source(fr, pre)
        if it is not None:
            q = E.symval(pre, ('prim', 'str'), 'q!any')
            K.ob('the loop runs over exactly the pending changes', pre, K.has(pre, it, q) == K.has(pre, ch0, q))
        for s in back + [o.st for o in os_ if o.st.ghost.get('send_failed')]:
            id = s.ghost.get('item')
            if id is None:
                continue
            K.reach += 1
            n += 1
            gone = s.ghost.get('send_failed')
            sn0, sn1 = K.fld(pre, self_, 'snapshots'), K.fld(s, self_, 'snapshots')
            docs0, docs1 = K.fld(pre, self_, 'memory.docs'), K.fld(s, self_, 'memory.docs')
            fuel0, fuel1 = K.fld(pre, self_, 'version_check_fuel'), K.fld(s, self_, 'version_check_fuel')
            caps = K.fld(pre, self_, 'client_capabilities')
            q = E.symval(s, ('prim', 'str'), 'q!any')
            a = s.fork()
            a.assume(q != E.term(a, id))
            for s2, p2, v2 in K.lookup(a, sn1, q):
                for s3, p3, v3 in K.lookup(s2, sn0, q):
                    K.ob('other snapshots: presence unchanged', s3, z3.BoolVal(p2 == p3))
                    if p2 and p3:
                        K.ob('other snapshots: unchanged', s3, K.eq(s3, v2, v3))
            for s2, p2, v2 in K.lookup(s, docs1, q):
                for s3, p3, v3 in K.lookup(s2, docs0, q):
                    K.ob('documents: presence unchanged', s3, z3.BoolVal(p2 == p3))
                    if p2 and p3:
                        K.ob('documents: unchanged', s3, K.eq(s3, v2, v3))
            parsed = K.spec(s, 'Url::parse', [id], 'Result<Url, ParseError>')
            isurl = K.is_(s, parsed, 'Ok')
            for s2, known, doc in K.lookup(s, docs0, id):
                for s3, present, snap in K.lookup(s2, sn1, id):
                    K.ob('snapshot exists iff the document does', s3, z3.BoolVal(known == present))
                    if not (known and present):
                        K.ob('fuel untouched for a closed document', s3, fuel1 == fuel0)
                        continue
                    for s4, had, old in K.lookup(s3, sn0, id):
                        uri = K.payload(s4, parsed, 'Ok')
                        proj = K.spec(s4, 'dispatch::parse_ink_project_version', [uri], 'Option<InkProjectVersion>')
                        g = K.spec(s4, 'InkProjectVersion::guess_version', [K.payload(s4, proj, 'Some')], 'Version')
                        v4 = E.defs.variant_index('Version', 'V4')
                        chk = z3.If(z3.And(K.is_(s4, parsed, 'Ok'), K.is_(s4, proj, 'Some')), g, v4)
                        lang = z3.If(fuel0 > 0, chk, K.t(s4, K.fld(s4, old, 'lang_version')) if had else chk)
                        want = K.spec(s4, 'Snapshot::new', [K.fld(s4, doc, 'content'), K.spec(s4, 'utils::position_encoding', [caps], 'PositionEncodingKind'),
                                                           E.some(K.fld(s4, doc, 'version'), 'Option<i32>'), lang], 'Snapshot')
                        K.ob('snapshot is that of the stored text, version and language version', s4, K.eq(s4, snap, want))
                        K.ob('fuel is spent on re-checks only', s4, fuel1 == z3.If(fuel0 > 0, fuel0 - 1, fuel0))
            if gone:
                continue
            pubs = [p for p in s.ghost.get('published', []) if p != '*']
            K.ob('published exactly once iff the id is a uri', s, z3.If(isurl, z3.BoolVal(len(pubs) == 1), z3.BoolVal(len(pubs) == 0)))
            for u, snapshots in pubs:
                K.ob('for its own uri', s, z3.Implies(isurl, K.eq(s, u, K.payload(s, parsed, 'Ok'))))
                K.ob('from the updated snapshots', s, K.eq(s, snapshots, sn1))
    if not n:
        raise LostAnchor('iteration over a changed id')

DP = 'Dispatcher::publish_diagnostics'

@contract(DP)
def send_diagnostics(K):
    """exactly one textDocument/publishDiagnostics notification with the parameters computed from the dispatcher's snapshots is sent"""
    E = K.E
    K.opaque('actions::publish_diagnostics')
    st = State()
    self_, uri = K.args(DP, st)
    sn = K.fld(st, self_, 'snapshots')
    for o in K.run(DP, [self_, uri], st):
        s = o.st
        ps = K.spec(s, 'actions::publish_diagnostics', [uri, sn], 'Result<PublishDiagnosticsParams, Error>')
        if s.ghost.get('send_failed'):
            K.ob('client gone: error', s, K.is_(s, o.val, 'Err'))
            continue
        ms = K.sent(s)
        K.ob('one message iff the parameters exist', s, z3.BoolVal(len(ms) == 1) == K.is_(s, ps, 'Ok'))
        K.ob('result', s, K.is_(s, o.val, 'Ok') == K.is_(s, ps, 'Ok'))
        for m in ms:
            K.ob('it is a notification', s, z3.BoolVal(K.variant(s, m) == 'Notification'))
            n = K.payload(s, m, 'Notification')
            K.ob('method', s, K.eq(s, K.fld(s, n, 'method', of='lsp_server::Notification'), 'textDocument/publishDiagnostics'))
            K.ob('parameters', s, K.eq(s, K.fld(s, n, 'params', of='lsp_server::Notification'), K.json(s, K.payload(s, ps, 'Ok'))))
