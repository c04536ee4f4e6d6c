"""P01: the open-document store mirrors the client's documents."""
import z3
import kit
from kit import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['HashMap/HashSet are mathematical maps/sets (assumed contracts on std)', 'Url::to_string/as_ref are the same injective text of a Url',
               'lsp_server::Notification::extract decodes params per lsp_types (serde) or reports MethodMismatch with the unchanged notification']

def memory(K, st, name='mem'):
    """an arbitrary store, held behind &mut"""
    m = K.E.symval(st, ('mut', ('adt', 'Memory', ())), name)
    return m

def snap(K, st, mref):
    return K.fld(st, mref, 'docs'), K.fld(st, mref, 'changes')

def store_post(K, o, name, mref, pre_docs, pre_ch, id, upd, changed):
    """pointwise postcondition for an arbitrary key q:
       docs'[q] = upd if q == id else docs[q];  changes'[q] = changes[q] or (changed and q == id)
       upd: None (unchanged) | 'absent' | (content, version)"""
    st = o.st
    q = K.E.symval(st, ('prim', 'str'), 'q!any')
    d2, c2 = snap(K, st, mref)
    K.ob(f'{name}: change set', st, K.has(st, c2, q) == z3.Or(K.has(st, pre_ch, q), z3.And(changed, q == id)))
    for s, present, val in K.lookup(st, d2, q):
        for s2, p0, v0 in K.lookup(s, pre_docs, q):
            same = [('other', q != id)] if upd is not None else [('any', z3.BoolVal(True))]
            for lbl, cond in same:
                s3 = K.E.branch(s2, cond)
                if s3 is None:
                    continue
                K.ob(f'{name}: frame, document {lbl}: presence', s3, z3.BoolVal(present == p0))
                if present and p0:
                    for f in ('content', 'version'):
                        K.ob(f'{name}: frame, document {lbl}: {f}', s3, K.eq(s3, K.fld(s3, val, f), K.fld(s3, v0, f)))
            if upd is not None:
                s3 = K.E.branch(s2, q == id)
                if s3 is None:
                    continue
                if upd == 'absent':
                    K.ob(f'{name}: document gone', s3, z3.BoolVal(not present))
                else:
                    K.ob(f'{name}: document present', s3, z3.BoolVal(present))
                    if present:
                        K.ob(f'{name}: content stored', s3, K.eq(s3, K.fld(s3, val, 'content'), upd[0]))
                        K.ob(f'{name}: version stored', s3, K.eq(s3, K.fld(s3, val, 'version'), upd[1]))

@contract('Memory::new')
def memory_new(K):
    """a new store is empty and has no pending change"""
    st = State()
    for o in K.run('Memory::new', [], st):
        q = K.E.symval(o.st, ('prim', 'str'), 'q!any')
        K.ob('no documents', o.st, z3.Not(K.has(o.st, K.fld(o.st, o.val, 'docs'), q)))
        K.ob('no changes', o.st, z3.Not(K.has(o.st, K.fld(o.st, o.val, 'changes'), q)))

@contract('Memory::insert')
def memory_insert(K):
    """insert(id, text, version): docs' = docs[id := (text, version)], changes' = changes + {id}"""
    st = State()
    m = memory(K, st)
    d, c = snap(K, st, m)
    id, text, ver = [K.E.symval(st, t, n) for t, n in ((('prim', 'str'), 'id'), (('prim', 'str'), 'text'), (('prim', 'i32'), 'ver'))]
    for o in K.run('Memory::insert', [m, id, text, ver], st):
        store_post(K, o, 'insert', m, d, c, id, (text, ver), z3.BoolVal(True))

@contract('Memory::get')
def memory_get(K):
    """get(id) is exactly docs[id] and changes nothing"""
    st = State()
    m = memory(K, st)
    d, c = snap(K, st, m)
    id = K.E.symval(st, ('prim', 'str'), 'id')
    for o in K.run('Memory::get', [m, id], st):
        for s, pl in K.some(o.st, o.val):
            K.ob('get: Some iff present', s, K.has(s, d, id) == z3.BoolVal(pl is not None))
            if pl is not None:
                for s2, p, v in K.lookup(s, d, id):
                    if p:
                        for f in ('content', 'version'):
                            K.ob(f'get: {f}', s2, K.eq(s2, K.fld(s2, pl[0], f), K.fld(s2, v, f)))
        store_post(K, o, 'get', m, d, c, id, None, z3.BoolVal(False))

@contract('Memory::update')
def memory_update(K):
    """update of an unknown id is ignored (false); of a known id replaces text and version and records the change (true)"""
    st = State()
    m = memory(K, st)
    d, c = snap(K, st, m)
    id, text, ver = [K.E.symval(st, t, n) for t, n in ((('prim', 'str'), 'id'), (('prim', 'str'), 'text'), (('prim', 'i32'), 'ver'))]
    known = K.has(st, d, id)
    for o in K.run('Memory::update', [m, id, text, ver], st):
        K.ob('update: result tells whether the document is known', o.st, K.t(o.st, o.val) == known)
        for k in (True, False):
            s = K.E.branch(o.st, known if k else z3.Not(known))
            if s is not None:
                store_post(K, Outcome(s, o.val), f'update known={k}', m, d, c, id, (text, ver) if k else None, z3.BoolVal(k))

@contract('Memory::remove')
def memory_remove(K):
    """remove(id): docs' = docs - {id}; a change is recorded iff the document was known"""
    st = State()
    m = memory(K, st)
    d, c = snap(K, st, m)
    id = K.E.symval(st, ('prim', 'str'), 'id')
    known = K.has(st, d, id)
    for o in K.run('Memory::remove', [m, id], st):
        store_post(K, o, 'remove', m, d, c, id, 'absent', known)

@contract('Memory::take_changes')
def memory_take(K):
    """take_changes returns exactly the pending changes (None iff there is none) and leaves none pending; documents unchanged"""
    st = State()
    m = memory(K, st)
    d, c = snap(K, st, m)
    for o in K.run('Memory::take_changes', [m], st):
        q = K.E.symval(o.st, ('prim', 'str'), 'q!any')
        d2, c2 = snap(K, o.st, m)
        K.ob('take: nothing pending afterwards', o.st, z3.Not(K.has(o.st, c2, q)))
        for s, present, v in K.lookup(o.st, d2, q):
            K.ob('take: documents unchanged', s, K.has(s, d, q) == z3.BoolVal(present))
        for s, pl in K.some(o.st, o.val):
            if pl is None:
                K.ob('take: None only without changes', s, z3.Not(K.has(s, c, q)))
            else:
                K.ob('take: returns the pending set', s, K.has(s, pl[0], q) == K.has(s, c, q))

def url(K, st, u):
    return K.E.uf('url_str', [K.t(st, u)], z3.StringSort())

N = 'dispatch::handlers::notification::'

@contract(N + 'handle_did_open_text_document')
def did_open(K):
    """didOpen stores (text, version) under the uri iff languageId is exactly "rust", else nothing changes"""
    st = State()
    fn = N + 'handle_did_open_text_document'
    p, = K.args(fn, st)[:1]
    m = memory(K, st)
    d, c = snap(K, st, m)
    td = K.fld(st, p, 'text_document')
    id = url(K, st, K.fld(st, td, 'uri'))
    lang, text, ver = (K.fld(st, td, f) for f in ('language_id', 'text', 'version'))
    isrust = K.eq(st, lang, 'rust')
    for o in K.run(fn, [p, m], st):
        K.ob('didOpen: Ok', o.st, K.is_(o.st, o.val, 'Ok'))
        for k in (True, False):
            s = K.E.branch(o.st, isrust if k else z3.Not(isrust))
            if s is not None:
                store_post(K, Outcome(s, o.val), f'didOpen rust={k}', m, d, c, id, (text, ver) if k else None, z3.BoolVal(k))

@contract(N + 'handle_did_change_text_document')
def did_change(K):
    """didChange with full sync: the last content change becomes the text of a known document; empty change lists and unknown documents change nothing"""
    st = State()
    fn = N + 'handle_did_change_text_document'
    p, = K.args(fn, st)[:1]
    m = memory(K, st)
    d, c = snap(K, st, m)
    id = url(K, st, K.fld(st, p, 'text_document.uri'))
    ver = K.fld(st, p, 'text_document.version')
    chs = K.fld(st, p, 'content_changes')
    n = K.E.seq_len(st, chs)
    st.assume(n >= 0)
    last = K.E.symval(st, K.E.nty('TextDocumentContentChangeEvent'), 'at', [K.t(st, chs), n - 1])
    text = K.fld(st, last, 'text')
    known = z3.And(K.has(st, d, id), n > 0)
    for o in K.run(fn, [p, m], st):
        K.ob('didChange: Ok', o.st, K.is_(o.st, o.val, 'Ok'))
        for k in (True, False):
            s = K.E.branch(o.st, known if k else z3.Not(known))
            if s is not None:
                store_post(K, Outcome(s, o.val), f'didChange applies={k}', m, d, c, id, (text, ver) if k else None, z3.BoolVal(k))

@contract(N + 'handle_did_close_text_document')
def did_close(K):
    """didClose forgets the document and records the change iff it was known"""
    st = State()
    fn = N + 'handle_did_close_text_document'
    p, = K.args(fn, st)[:1]
    m = memory(K, st)
    d, c = snap(K, st, m)
    id = url(K, st, K.fld(st, p, 'text_document.uri'))
    for o in K.run(fn, [p, m], st):
        K.ob('didClose: Ok', o.st, K.is_(o.st, o.val, 'Ok'))
        store_post(K, o, 'didClose', m, d, c, id, 'absent', K.has(o.st, d, id))
