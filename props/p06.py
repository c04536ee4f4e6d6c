"""P06: answers carry the analyzer's results unaltered, at the translated positions."""
import z3
import kit
from kit import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['Analysis::{diagnostics,completions,hover,actions,inlay_hints,signature_help} are pure functions of the snapshot and the place asked for (uninterpreted here)',
               'to_lsp::{range,position} and from_lsp::{offset,text_range} behave as proved for P04 (uninterpreted here)',
               'the lsp_types constants for kinds and severities are pairwise distinct values; Default of an lsp_types struct has every optional field absent',
               'precondition of to_lsp::signature_help: every parameter range lies within its signature label (checked on real signatures by the harness)',
               'fewer than 2^32 signatures at one place',
               'serde_json::to_value of text, numbers and uris cannot fail']
T = 'translator::to_lsp::'

def const(K, st, ty, name):
    return K.E.term(st, K.E.eval_const(st, ('path', f'lsp_types::{ty}::{name}'), f'lsp_types::{ty}'))

def distinct(K, st, ty, names):
    d = {n: const(K, st, ty, n) for n in names}
    st.assume(z3.Distinct(*d.values()))
    return d

def vi(K, en, v):
    return z3.IntVal(K.E.defs.variant_index(en, v))

def translated(K, s, o, want, what):
    """a result is produced exactly when the place can be translated"""
    K.ob(f'{what}: answered exactly when its place is translatable', s, K.is_(s, o.val, 'Some') == K.is_(s, want, 'Some'))

def each(K, fn, pl, ty, extra=()):
    """runs fn with to_lsp::range (or position) uninterpreted; yields (state, args, translation, result payload)"""
    K.opaque('to_lsp::' + pl)

@contract(T + 'diagnostic')
def diagnostic(K):
    """range, message and severity of the diagnostic, nothing else"""
    E = K.E
    K.opaque('to_lsp::range')
    st = State()
    d, ctx = a = K.args(T + 'diagnostic', st)
    sev = distinct(K, st, 'DiagnosticSeverity', ['ERROR', 'WARNING', 'INFORMATION', 'HINT'])
    for o in K.run(T + 'diagnostic', a, st):
        s = o.st
        rg = K.spec(s, 'to_lsp::range', [K.fld(s, d, 'range', of='analyzer::Diagnostic'), ctx], 'Option<Range>')
        translated(K, s, o, rg, 'diagnostic')
        for s2, pl in K.some(s, o.val):
            if pl is None:
                continue
            v = pl[0]
            F = lambda p: K.chain(s2, v, p, of='lsp_types::Diagnostic')
            K.ob('range', s2, K.eq(s2, F('range')[1], K.payload(s2, rg, 'Some')))
            K.ob('message', s2, K.eq(s2, F('message')[1], K.fld(s2, d, 'message', of='analyzer::Diagnostic')))
            c, x = F('severity?')
            sv = K.fld(s2, d, 'severity', of='analyzer::Diagnostic')
            K.ob('severity', s2, z3.And(c, K.t(s2, x) == z3.If(K.is_(s2, sv, 'Error', 'Severity'), sev['ERROR'], sev['WARNING'])))

CK = dict(Attr='FIELD', Field='FIELD', Enum='ENUM', Fn='FUNCTION', Mod='MODULE', Struct='STRUCT', Trait='CLASS')

@contract(T + 'completion')
def completion(K):
    """label, detail, kind; replaces the completion's range by its snippet iff the client takes snippets and there is one, else by its plain text"""
    E = K.E
    K.opaque('to_lsp::range')
    st = State()
    c0, snip, ctx = a = K.args(T + 'completion', st)
    ks = distinct(K, st, 'CompletionItemKind', sorted(set(CK.values())))
    fm = distinct(K, st, 'InsertTextFormat', ['SNIPPET', 'PLAIN_TEXT'])
    C = 'analyzer::Completion'
    for o in K.run(T + 'completion', a, st):
        s = o.st
        rg = K.spec(s, 'to_lsp::range', [K.fld(s, c0, 'range', of=C), ctx], 'Option<Range>')
        translated(K, s, o, rg, 'completion')
        for s2, pl in K.some(s, o.val):
            if pl is None:
                continue
            F = lambda p: K.chain(s2, pl[0], p, of='lsp_types::CompletionItem')
            K.ob('label', s2, K.eq(s2, F('label')[1], K.fld(s2, c0, 'label', of=C)))
            K.ob('detail', s2, K.eq(s2, F('detail')[1], K.fld(s2, c0, 'detail', of=C)))
            kind = K.fld(s2, c0, 'kind', of=C)
            c, x = F('kind?')
            for v, n in CK.items():
                K.ob(f'kind {v}', s2, z3.Implies(K.is_(s2, kind, v, 'CompletionKind'), z3.And(c, K.t(s2, x) == ks[n])))
            edit = K.fld(s2, c0, 'edit', of=C)
            sn = K.fld(s2, edit, 'snippet', of='analyzer::TextEdit')
            use = z3.And(K.t(s2, snip), K.is_(s2, sn, 'Some'))
            c, x = F('insert_text_format?')
            K.ob('format only for clients with snippet support', s2, c == K.t(s2, snip))
            if x is not None:
                K.ob('format', s2, z3.Implies(c, K.t(s2, x) == z3.If(use, fm['SNIPPET'], fm['PLAIN_TEXT'])))
            c, x = F('text_edit?')
            K.ob('plain edit', s2, z3.And(c, K.is_(s2, x, 'Edit')))
            te = K.payload(s2, x, 'Edit')
            K.ob('replaces the completion range', s2, K.eq(s2, K.fld(s2, te, 'range', of='lsp_types::TextEdit'), K.payload(s2, rg, 'Some')))
            nt = K.t(s2, K.fld(s2, te, 'new_text', of='lsp_types::TextEdit'))
            K.ob('inserts the snippet or the plain text', s2, nt == z3.If(use, K.t(s2, K.payload(s2, sn, 'Some')), K.t(s2, K.fld(s2, edit, 'text', of='analyzer::TextEdit'))))

@contract(T + 'hover')
def hover(K):
    """markdown of the content at the translated range"""
    K.opaque('to_lsp::range', 'MarkedString::from_markdown')
    st = State()
    h, ctx = a = K.args(T + 'hover', st)
    for o in K.run(T + 'hover', a, st):
        s = o.st
        rg = K.spec(s, 'to_lsp::range', [K.fld(s, h, 'range', of='analyzer::Hover'), ctx], 'Option<Range>')
        translated(K, s, o, rg, 'hover')
        for s2, pl in K.some(s, o.val):
            if pl is None:
                continue
            c, x = K.chain(s2, pl[0], 'range?', of='lsp_types::Hover')
            K.ob('range', s2, z3.And(c, K.eq(s2, x, K.payload(s2, rg, 'Some'))))
            ct = K.fld(s2, pl[0], 'contents', of='lsp_types::Hover')
            K.ob('one block', s2, K.is_(s2, ct, 'Scalar'))
            K.ob('content', s2, K.eq(s2, K.payload(s2, ct, 'Scalar'), K.spec(s2, 'MarkedString::from_markdown', [K.fld(s2, h, 'content', of='analyzer::Hover')], 'MarkedString')))

@contract(T + 'inlay_hint')
def inlay_hint(K):
    """': ' + label at the translated position, the detail as tooltip"""
    K.opaque('to_lsp::position')
    st = State()
    h, ctx = a = K.args(T + 'inlay_hint', st)
    ks = distinct(K, st, 'InlayHintKind', ['TYPE', 'PARAMETER'])
    H = 'analyzer::InlayHint'
    for o in K.run(T + 'inlay_hint', a, st):
        s = o.st
        ps = K.spec(s, 'to_lsp::position', [K.fld(s, h, 'position', of=H), ctx], 'Option<Position>')
        translated(K, s, o, ps, 'hint')
        for s2, pl in K.some(s, o.val):
            if pl is None:
                continue
            F = lambda p: K.chain(s2, pl[0], p, of='lsp_types::InlayHint')
            K.ob('position', s2, K.eq(s2, F('position')[1], K.payload(s2, ps, 'Some')))
            lb = F('label')[1]
            K.ob('text label', s2, K.is_(s2, lb, 'String'))
            K.ob('label', s2, K.t(s2, K.payload(s2, lb, 'String')) == z3.Concat(zstr(': '), K.t(s2, K.fld(s2, h, 'label', of=H))))
            c, x = F('kind?')
            K.ob('kind', s2, z3.And(c, K.t(s2, x) == ks['TYPE']))
            det = K.fld(s2, h, 'detail', of=H)
            tp = F('tooltip')[1]
            K.ob('tooltip iff detail', s2, K.is_(s2, tp, 'Some') == K.is_(s2, det, 'Some'))
            for s3, p3 in K.some(s2, tp):
                if p3 is not None:
                    K.ob('tooltip text', s3, z3.And(K.is_(s3, p3[0], 'String'), K.eq(s3, K.payload(s3, p3[0], 'String'), K.payload(s3, det, 'Some'))))

AK = dict(QuickFix='QUICKFIX', Refactor='REFACTOR_REWRITE', Migrate='REFACTOR_REWRITE', Extract='REFACTOR_EXTRACT')

@contract(T + 'code_action')
def code_action(K):
    """title and kind; migrate/extract carry no edit but their command and offsets (as data iff the client resolves edits, else as a command);
    every other action edits exactly the action's uri with the translatable edits, in order"""
    E = K.E
    K.opaque('to_lsp::range')
    fn = T + 'code_action'
    st = State()
    act, uri, res, ctx = a = K.args(fn, st)
    ks = distinct(K, st, 'CodeActionKind', ['QUICKFIX', 'REFACTOR_REWRITE', 'REFACTOR_EXTRACT', 'EMPTY'])
    A = 'analyzer::Action'
    LT = 'lsp_types::'
    seen = 0
    for o in K.run(fn, a, st):
        s = o.st
        kind = K.fld(s, act, 'kind', of=A)
        mig, ext = K.is_(s, kind, 'Migrate', 'ActionKind'), K.is_(s, kind, 'Extract', 'ActionKind')
        lazy = z3.Or(mig, ext)
        label = K.fld(s, act, 'label', of=A)
        rng = E.tr_parts(E, s, K.fld(s, act, 'range', of=A))
        for s2, pl in K.some(s, o.val):
            if pl is None:
                K.ob('migrate and extract actions are always offered', s2, z3.Not(lazy))
                continue
            ca = pl[0]
            F = lambda st_, p: K.chain(st_, ca, p, of=LT + 'CodeAction')
            K.ob('title', s2, K.eq(s2, F(s2, 'title')[1], label))
            c, x = F(s2, 'kind?')
            for v, n in AK.items():
                K.ob(f'kind {v}', s2, z3.Implies(K.is_(s2, kind, v, 'ActionKind'), z3.And(c, K.t(s2, x) == ks[n])))
            edit, data, cmd = (F(s2, p)[1] for p in ('edit', 'data', 'command'))
            K.ob('edit unless computed lazily', s2, K.is_(s2, edit, 'Some') == z3.Not(lazy))
            K.ob('command iff lazy and not resolvable', s2, K.is_(s2, cmd, 'Some') == z3.And(lazy, z3.Not(K.t(s2, res))))
            K.ob('data of lazy actions iff resolvable', s2, z3.Implies(lazy, K.is_(s2, data, 'Some') == K.t(s2, res)))
            b = E.branch(s2, z3.And(lazy, K.t(s2, res)))
            if b is not None:
                m = K.deref(b, K.payload(b, data, 'Some'))
                args_of(K, b, m, uri, rng, z3.If(mig, zstr('migrateProject'), zstr('extractEvent')))
            b = E.branch(s2, z3.And(lazy, z3.Not(K.t(s2, res))))
            if b is not None:
                m = K.payload(b, cmd, 'Some')
                K.ob('command title', b, K.eq(b, K.fld(b, m, 'title', of=LT + 'Command'), label))
                K.ob('command name', b, K.t(b, K.fld(b, m, 'command', of=LT + 'Command')) == z3.If(mig, zstr('migrateProject'), zstr('extractEvent')))
                c, av = K.chain(b, m, 'arguments?', of=LT + 'Command')
                K.ob('command has arguments', b, c)
                av = K.deref(b, av)
                if not isinstance(av, VSeq) or len(av.items) != 1:
                    K.fail('exactly one command argument')
                else:
                    args_of(K, b, K.deref(b, av.items[0]), uri, rng, None)
            b = E.branch(s2, z3.Not(lazy))
            if b is not None:
                c, ch = K.chain(b, K.payload(b, edit, 'Some'), 'changes?', of=LT + 'WorkspaceEdit')
                K.ob('edit as plain changes', b, c)
                ch = K.deref(b, ch)
                if not isinstance(ch, VMap) or ch.base is not None or len(ch.ups) != 1:
                    raise ToolLimit('changes is ' + type(ch).__name__)
                k, p, edits = ch.ups[0]
                K.ob('edits the document itself', b, K.eq(b, k, uri))
                it = K.elems(b, edits)
                if not isinstance(it, VSymIter):
                    raise ToolLimit('edits are not over a symbolic sequence')
                K.ob('edits come from the action', b, it.src == K.t(b, K.fld(b, act, 'edits', of=A)))
                for s3, item, kept, val in E.iter_elem(E, b, it):
                    seen += 1
                    rg = K.spec(s3, 'to_lsp::range', [K.fld(s3, item, 'range', of='analyzer::TextEdit'), ctx], 'Option<Range>')
                    K.ob('an edit is included iff translatable', s3, z3.BoolVal(kept) == K.is_(s3, rg, 'Some'))
                    if kept:
                        K.ob('edit range', s3, K.eq(s3, K.fld(s3, val, 'range', of=LT + 'TextEdit'), K.payload(s3, rg, 'Some')))
                        K.ob('edit text', s3, K.eq(s3, K.fld(s3, val, 'new_text', of=LT + 'TextEdit'), K.fld(s3, item, 'text', of='analyzer::TextEdit')))
    if not seen:
        raise LostAnchor('edits of code actions')

def args_of(K, s, m, uri, rng, cmd):
    """the json object {uri, range: {start, end}[, command]}"""
    E = K.E
    K.ob('arguments are an object', s, K.is_(s, m, 'Object'))
    m = K.deref(s, K.payload(s, m, 'Object'))
    def get(s, m, k):
        r = [(s1, v) for s1, p, v in K.lookup(s, m, zstr(k)) if p]
        K.ob(f'has "{k}"', s, z3.BoolVal(len(r) == 1))
        return r[0] if r else (s, None)
    s1, u = get(s, m, 'uri')
    if u is not None:
        K.ob('uri', s1, z3.And(K.is_(s1, u, 'String'), K.eq(s1, K.payload(s1, u, 'String'), E.url_str(s1, K.t(s1, uri)))))
    if cmd is not None:
        s1, u = get(s, m, 'command')
        if u is not None:
            K.ob('command name', s1, z3.And(K.is_(s1, u, 'String'), K.t(s1, K.payload(s1, u, 'String')) == cmd))
    s1, r = get(s, m, 'range')
    if r is None:
        return
    K.ob('range is an object', s1, K.is_(s1, r, 'Object'))
    rm = K.deref(s1, K.payload(s1, r, 'Object'))
    for k, want in (('start', rng[0]), ('end', rng[1])):
        s2, v = get(s1, rm, k)
        if v is not None:
            K.ob(f'range {k}', s2, z3.And(K.is_(s2, v, 'Number'), K.t(s2, K.payload(s2, v, 'Number')) == E.term(s2, E.symval(s2, ('adt', 'Number', ()), 'json_number', [want]))))

# ---------------------------------------------------------------------------------------------- request handlers
H = 'dispatch::handlers::request::'
SN = 'dispatch::Snapshot'

def place(K, s, params, path, of):
    return K.chain(s, params, path, of='lsp_types::' + of)[1]

def handler(K, fn, uri_path, of, trans, tr_name, err_ok=True):
    """common part: unknown document -> Ok(None); untranslatable place -> Err; yields (state, snapshot, place value, Ok payload (an Option))"""
    E = K.E
    st = State()
    params, snaps, caps = a = K.args(H + fn, st)
    n = 0
    for o in K.run(H + fn, a, st):
        s = o.st
        key = E.url_str(s, K.t(s, place(K, s, params, uri_path, of)))
        for s2, present, snap in K.lookup(s, snaps, key):
            if not present:
                K.ob('unknown document: empty answer', s2, z3.And(K.is_(s2, o.val, 'Ok'), K.is_(s2, K.payload(s2, o.val, 'Ok'), 'None')))
                continue
            ctx = K.fld(s2, snap, 'context')
            pv = K.spec(s2, tr_name, [place(K, s2, params, trans, of), ctx], 'Option<TextSize>')
            K.ob('error exactly for places outside the document', s2, K.is_(s2, o.val, 'Err') == K.is_(s2, pv, 'None'))
            b = E.branch(s2, K.is_(s2, pv, 'Some'))
            if b is not None:
                n += 1
                yield b, params, caps, snap, K.payload(b, pv, 'Some'), K.payload(b, o.val, 'Ok')
    if not n:
        raise LostAnchor(fn + ' never answers')

def mapped(K, s, coll, src, what, spec, ty, args, ctx, wrap=lambda K, s, v: v):
    """`coll` is exactly the translations of the elements of `src`, in order"""
    E = K.E
    it = K.elems(s, coll)
    if not isinstance(it, VSymIter):
        raise ToolLimit(f'{what}: not an iterator over a symbolic sequence')
    K.ob(f'{what}: all results of the analyzer', s, it.src == K.t(s, src))
    for s3, item, kept, val in E.iter_elem(E, s, it):
        want = K.spec(s3, spec, [item] + args + [ctx], ty)
        K.ob(f'{what}: included iff translatable', s3, z3.BoolVal(kept) == K.is_(s3, want, 'Some'))
        if kept:
            K.ob(f'{what}: is the translation', s3, K.eq(s3, wrap(K, s3, val), K.payload(s3, want, 'Some')))
    for k, _ in it.stages:
        if k not in ('filter_map', 'map', 'filter', 'cloned', 'copied', 'into_iter', 'inspect'):
            K.fail(f'{what}: order is kept (stage {k})')

@contract(H + 'handle_completion')
def h_completion(K):
    """all translatable completions of the analyzer at the requested offset in order, or an empty answer when there is none"""
    E = K.E
    K.opaque('from_lsp::offset', 'to_lsp::completion', 'Analysis::completions', 'utils::snippet_support')
    tdp = 'text_document_position.'
    for s, params, caps, snap, off, res in handler(K, 'handle_completion', tdp + 'text_document.uri', 'CompletionParams', tdp + 'position', 'from_lsp::offset'):
        src = K.spec(s, 'Analysis::completions', [K.fld(s, snap, 'analysis'), off], 'Vec<Completion>')
        sup = K.spec(s, 'utils::snippet_support', [caps], 'bool')
        for s2, pl in K.some(s, res):
            if pl is None:
                continue
            K.ob('a list', s2, K.is_(s2, pl[0], 'List'))
            lst = K.payload(s2, pl[0], 'List')
            mapped(K, s2, K.fld(s2, lst, 'items', of='lsp_types::CompletionList'), src, 'completions', 'to_lsp::completion', 'Option<CompletionItem>', [sup], K.fld(s2, snap, 'context'))

@contract(H + 'handle_hover')
def h_hover(K):
    """the translated hover of the analyzer for the empty range at the requested offset"""
    E = K.E
    K.opaque('from_lsp::offset', 'to_lsp::hover', 'Analysis::hover')
    tdp = 'text_document_position_params.'
    for s, params, caps, snap, off, res in handler(K, 'handle_hover', tdp + 'text_document.uri', 'HoverParams', tdp + 'position', 'from_lsp::offset'):
        rng = E.mk_range(E, s, off, off)
        src = K.spec(s, 'Analysis::hover', [K.fld(s, snap, 'analysis'), rng], 'Option<Hover>')
        for s2, pl in K.some(s, src):
            if pl is None:
                K.ob('nothing to show: empty answer', s2, K.is_(s2, res, 'None'))
            else:
                K.ob('the translated hover', s2, K.eq(s2, res, K.spec(s2, 'to_lsp::hover', [pl[0], K.fld(s2, snap, 'context')], 'Option<Hover>')))

@contract(H + 'handle_code_action')
def h_code_action(K):
    """all translatable actions of the analyzer for the requested range, in order"""
    E = K.E
    K.opaque('from_lsp::text_range', 'to_lsp::code_action', 'Analysis::actions', 'utils::code_action_edit_resolve_support')
    for s, params, caps, snap, rng, res in handler(K, 'handle_code_action', 'text_document.uri', 'CodeActionParams', 'range', 'from_lsp::text_range'):
        K.ob('answered', s, K.is_(s, res, 'Some'))
        src = K.spec(s, 'Analysis::actions', [K.fld(s, snap, 'analysis'), rng], 'Vec<Action>')
        sup = K.spec(s, 'utils::code_action_edit_resolve_support', [caps], 'bool')
        uri = place(K, s, params, 'text_document.uri', 'CodeActionParams')
        def unwrap(K, s, v):
            K.ob('listed as a code action', s, K.is_(s, v, 'CodeAction'))
            return K.payload(s, v, 'CodeAction')
        mapped(K, s, K.payload(s, res, 'Some'), src, 'actions', 'to_lsp::code_action', 'Option<CodeAction>', [uri, sup], K.fld(s, snap, 'context'), unwrap)

@contract(H + 'handle_inlay_hint')
def h_inlay(K):
    """all translatable inlay hints of the analyzer for the requested range, in order"""
    E = K.E
    K.opaque('from_lsp::text_range', 'to_lsp::inlay_hint', 'Analysis::inlay_hints')
    for s, params, caps, snap, rng, res in handler(K, 'handle_inlay_hint', 'text_document.uri', 'InlayHintParams', 'range', 'from_lsp::text_range'):
        K.ob('answered', s, K.is_(s, res, 'Some'))
        src = K.spec(s, 'Analysis::inlay_hints', [K.fld(s, snap, 'analysis'), E.some(rng, 'Option<TextRange>')], 'Vec<InlayHint>')
        mapped(K, s, K.payload(s, res, 'Some'), src, 'hints', 'to_lsp::inlay_hint', 'Option<InlayHint>', [], K.fld(s, snap, 'context'))

@contract(H + 'handle_signature_help')
def h_signature(K):
    """the translated signatures of the analyzer at the requested offset, with the client's previous signature help (if it sent one)"""
    E = K.E
    K.opaque('from_lsp::offset', 'to_lsp::signature_help', 'Analysis::signature_help', 'utils::signature_support')
    tdp = 'text_document_position_params.'
    for s, params, caps, snap, off, res in handler(K, 'handle_signature_help', tdp + 'text_document.uri', 'SignatureHelpParams', tdp + 'position', 'from_lsp::offset'):
        src = K.spec(s, 'Analysis::signature_help', [K.fld(s, snap, 'analysis'), off], 'Vec<SignatureHelp>')
        sup = K.spec(s, 'utils::signature_support', [caps], 'SignatureSupport')
        c, prev = K.chain(s, params, 'context?.active_signature_help?', of='lsp_types::SignatureHelpParams')
        for has in (True, False):
            b = E.branch(s, c if has else z3.Not(c))
            if b is None:
                continue
            pv = E.some(prev, 'Option<SignatureHelp>') if has else E.none('Option<SignatureHelp>')
            K.ob('the translated signature help', b, K.eq(b, res, K.spec(b, 'to_lsp::signature_help', [src, sup, pv, K.fld(b, snap, 'context')], 'Option<SignatureHelp>')))

@contract(T + 'signature_help')
def signature_help(K):
    """one entry per signature in order with its label, detail and parameters; the active signature and parameter"""
    E = K.E
    K.opaque('to_lsp::offset')
    fn = T + 'signature_help'
    st = State()
    sigs, sup, prev, ctx = a = K.args(fn, st)
    LT = 'lsp_types::'
    E.pre_panics = ['str slice']  # precondition: parameter ranges lie within their label
    st.assume(E.seq_len(st, K.t(st, sigs)) < 2**32)
    outs = K.run(fn, a, st)
    n = 0
    for o in outs:
        s = o.st
        ln = E.seq_len(s, K.t(s, sigs))
        K.ob('answered exactly when there are signatures', s, K.is_(s, o.val, 'Some') == (ln > 0))
        for s2, pl in K.some(s, o.val):
            if pl is None:
                continue
            sh = pl[0]
            it = K.elems(s2, K.fld(s2, sh, 'signatures', of=LT + 'SignatureHelp'))
            K.ob('all signatures', s2, it.src == K.t(s2, sigs))
            c, act = K.chain(s2, sh, 'active_signature?', of=LT + 'SignatureHelp')
            K.ob('an active signature', s2, z3.And(c, K.t(s2, act) >= 0, K.t(s2, act) < ln))
            S = 'analyzer::SignatureHelp'
            sig = lambda j: E.symval(s2, E.nty(S), 'at', [K.t(s2, sigs), j])
            label = lambda j: K.t(s2, K.fld(s2, sig(j), 'label', of=S))
            cp, ps = K.is_(s2, prev, 'Some', 'Option'), K.payload(s2, prev, 'Some')
            ci, ix = K.chain(s2, ps, 'active_signature?', of=LT + 'SignatureHelp')
            psigs = K.fld(s2, ps, 'signatures', of=LT + 'SignatureHelp')
            ix = K.t(s2, ix)
            old = E.symval(s2, E.nty(LT + 'SignatureInformation'), 'at', [K.t(s2, psigs), ix])
            picked = z3.And(cp, ci, ix > 0, ix < E.seq_len(s2, K.t(s2, psigs)))
            was = K.t(s2, K.fld(s2, old, 'label', of=LT + 'SignatureInformation'))
            j = z3.Int('j!sig')
            av = K.t(s2, act)
            first = lambda i: z3.And(label(i) == was, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), label(j) != was)))
            still = z3.And(picked, z3.Exists([j], z3.And(j >= 0, j < ln, label(j) == was)))
            K.ob('the signature the user picked stays active', s2, z3.Implies(still, first(av)))
            K.ob('else the first is active', s2, z3.Implies(z3.Not(still), av == 0))
            pa, pv = K.chain(s2, sh, 'active_parameter?', of=LT + 'SignatureHelp')
            qa, qv = K.chain(s2, sig(av), 'active_parameter?', of=S)
            K.ob('its active parameter', s2, z3.And(pa == qa, z3.Implies(z3.And(qa, K.t(s2, qv) < 2**32), K.t(s2, pv) == K.t(s2, qv))))
            for s3, item, kept, val in E.iter_elem(E, s2, it):
                n += 1
                S = 'analyzer::SignatureHelp'
                SI = LT + 'SignatureInformation'
                K.ob('no signature is dropped', s3, z3.BoolVal(kept))
                if not kept:
                    continue
                K.ob('label', s3, K.eq(s3, K.fld(s3, val, 'label', of=SI), K.fld(s3, item, 'label', of=S)))
                det, doc = K.fld(s3, item, 'detail', of=S), K.fld(s3, val, 'documentation', of=SI)
                K.ob('documentation iff detail', s3, K.is_(s3, det, 'Some') == K.is_(s3, doc, 'Some'))
                ap, ap0 = K.fld(s3, val, 'active_parameter', of=SI), K.fld(s3, item, 'active_parameter', of=S)
                supp = K.t(s3, K.fld(s3, sup, 'active_parameter_support'))
                K.ob('active parameter only if supported', s3, K.is_(s3, ap, 'Some') == z3.And(supp, K.is_(s3, ap0, 'Some')))
                ps = K.fld(s3, val, 'parameters', of=SI)
                src = K.t(s3, K.fld(s3, item, 'parameters', of=S))
                K.ob('parameters iff there are any', s3, K.is_(s3, ps, 'Some') == (E.seq_len(s3, src) > 0))
                for s4, p4 in K.some(s3, ps):
                    if p4 is None:
                        continue
                    it2 = K.elems(s4, p4[0])
                    K.ob('all parameters', s4, it2.src == src)
                    for s5, item5, kept5, v5 in E.iter_elem(E, s4, it2):
                        K.ob('no parameter is dropped', s5, z3.BoolVal(kept5))
                        if not kept5:
                            continue
                        lb = K.fld(s5, v5, 'label', of=LT + 'ParameterInformation')
                        offs = K.t(s5, K.fld(s5, sup, 'label_offset_support'))
                        K.ob('label offsets iff supported', s5, K.is_(s5, lb, 'LabelOffsets') == offs)
                        P = 'analyzer::SignatureParameter'
                        rg = K.fld(s5, item5, 'range', of=P)
                        ends = [K.t(s5, K.fld(s5, rg, q)) for q in ('start', 'end')]
                        for s6 in [q for q in [E.branch(s5, offs)] if q is not None]:
                            arr = K.payload(s6, lb, 'LabelOffsets')
                            for q, e in enumerate(ends):
                                K.ob('label offsets: those of its range', s6, K.eq(s6, (arr.fields[q] if isinstance(arr, VAdt) else arr.items[q]), K.spec(s6, 'to_lsp::offset', [e, K.fld(s6, ctx, 'encoding'), K.fld(s6, item, 'label', of=S)], 'u32')))
                        d5, e5 = K.fld(s5, item5, 'detail', of=P), K.fld(s5, v5, 'documentation', of=LT + 'ParameterInformation')
                        K.ob('documentation of a parameter iff detail', s5, K.is_(s5, d5, 'Some') == K.is_(s5, e5, 'Some'))
    if not n:
        raise LostAnchor('signatures')

@contract(T + 'offset')
def label_offset(K):
    """an offset within a label in the units of the negotiated encoding"""
    E = K.E
    fn = T + 'offset'
    st = State()
    off, enc, text = a = K.args(fn, st)
    tx, of, en = K.t(st, text), K.t(st, off), K.t(st, enc)
    st.assume(z3.And(of <= z3.Length(tx), E.boundary(tx, of)))  # precondition: parameter ranges lie within their label, at character boundaries
    k = {n: E.term(st, E.eval_const(st, ('path', f'lsp_types::PositionEncodingKind::{n}'), 'lsp_types::PositionEncodingKind')) for n in ('UTF8', 'UTF16', 'UTF32')}
    st.assume(z3.Distinct(*k.values()))
    for o in K.run(fn, a, st):
        s = o.st
        pre = z3.SubString(tx, 0, of)
        for n, e in (('UTF16', 'Utf16'), ('UTF32', 'Utf32')):
            w = E.symval(s, E.nty('usize'), 'ext:line_index::WideEncoding::measure', [z3.IntVal(E.defs.variant_index('WideEncoding', e)), pre])
            K.ob(f'{n} units', s, z3.Implies(z3.And(en == k[n], of > 0, K.t(s, w) < 2**32), K.t(s, o.val) == K.t(s, w)))
        K.ob('bytes otherwise', s, z3.Implies(z3.Or(of == 0, z3.And(en != k['UTF16'], en != k['UTF32'])), K.t(s, o.val) == of))
