"""P02: every request is answered exactly once and nothing a client sends ends the session."""
import z3
import kit
from kit import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['lsp_server::Request/Notification::extract: MethodMismatch with the same message iff the method differs, otherwise Ok with the same id or JsonError',
               'lsp_server::Response::new_ok/new_err, Request::new, Notification::new are plain constructors',
               'crossbeam Sender::send delivers the message or reports a disconnected client',
               'lsp_server::Connection::handle_shutdown returns Ok(false) without effect for every method but "shutdown"',
               'panic-freedom of the ink! analysis functions called by handlers is not part of these contracts (bounded part only)']
ROUTES = [('textDocument/completion', 'handle_completion'), ('textDocument/hover', 'handle_hover'), ('textDocument/codeAction', 'handle_code_action'),
          ('codeAction/resolve', 'handle_code_action_resolve'), ('textDocument/inlayHint', 'handle_inlay_hint'),
          ('textDocument/signatureHelp', 'handle_signature_help'), ('workspace/executeCommand', 'handle_execute_command')]

def one_of(K, st, resp):
    """a well-formed response carries exactly one of result and error"""
    r, e = K.is_(st, K.fld(st, resp, 'result'), 'Some'), K.is_(st, K.fld(st, resp, 'error'), 'Some')
    return z3.Xor(r, e)

def err_code(K, st, resp):
    e = K.fld(st, resp, 'error')
    return K.fld(st, K.payload(st, e, 'Some'), 'code')

RR = 'RequestRouter::process'

@contract(RR)
def router_process(K):
    """process::<R>: a pending request whose method is R's is consumed and answered with its own id and exactly one of result/error
    (InvalidParams when the params don't decode, InternalError when the handler fails); anything else is left untouched"""
    st = State()
    rt, h = K.args(RR, st)
    req0, resp0 = K.fld(st, rt, 'req'), K.fld(st, rt, 'resp')
    pend = z3.And(K.is_(st, req0, 'Some'), K.is_(st, resp0, 'None'))
    method = None
    for o in K.run(RR, [rt, h], st):
        s = o.st
        req1, resp1 = K.fld(s, rt, 'req'), K.fld(s, rt, 'resp')
        same = z3.And(K.eq(s, req1, req0), K.eq(s, resp1, resp0))
        for s1, pl in K.some(s, req0):
            rq = pl[0] if pl else None
            if rq is None:
                K.ob('no pending request: unchanged', s1, same)
                continue
            M = K.E.eval_const(s1, ('path', '<R as lsp_types::request::Request>::METHOD'), 'str')
            match = z3.And(K.is_(s1, resp0, 'None'), K.eq(s1, K.fld(s1, rq, 'method'), M))
            a = K.E.branch(s1, z3.Not(match))
            if a is not None:
                K.ob('answered already, or another method: unchanged', a, same)
            b = K.E.branch(s1, match)
            if b is not None:
                K.ob('request consumed', b, K.is_(b, req1, 'None'))
                K.ob('answered', b, K.is_(b, resp1, 'Some'))
                r = K.payload(b, resp1, 'Some')
                K.ob('answered under its own id', b, K.eq(b, K.fld(b, r, 'id'), K.fld(b, rq, 'id')))
                K.ob('exactly one of result and error', b, one_of(K, b, r))
                c = K.E.branch(b, K.is_(b, K.fld(b, r, 'error'), 'Some'))
                if c is not None:
                    K.ob('error code is InvalidParams or InternalError', c, z3.Or(err_code(K, c, r) == -32602, err_code(K, c, r) == -32603))

@contract('RequestRouter::new')
def router_new(K):
    """a new router holds the request, no response, and the given snapshots and capabilities"""
    st = State()
    a = K.args('RequestRouter::new', st)
    for o in K.run('RequestRouter::new', a, st):
        K.ob('request pending', o.st, z3.And(K.is_(o.st, K.fld(o.st, o.val, 'req'), 'Some'), K.eq(o.st, K.payload(o.st, K.fld(o.st, o.val, 'req'), 'Some'), a[0])))
        K.ob('no response', o.st, K.is_(o.st, K.fld(o.st, o.val, 'resp'), 'None'))
        K.ob('snapshots', o.st, K.eq(o.st, K.fld(o.st, o.val, 'snapshots'), a[1]))
        K.ob('capabilities', o.st, K.eq(o.st, K.fld(o.st, o.val, 'client_capabilities'), a[2]))

@contract('RequestRouter::finish')
def router_finish(K):
    """finish returns the response if there is one; otherwise MethodNotFound under the pending request's id; None only when neither exists"""
    st = State()
    rt, = K.args('RequestRouter::finish', st)
    req0, resp0 = K.fld(st, rt, 'req'), K.fld(st, rt, 'resp')
    for o in K.run('RequestRouter::finish', [rt], st):
        for s, pl in K.some(o.st, resp0):
            if pl:
                K.ob('existing response returned', s, z3.And(K.is_(s, o.val, 'Some'), K.eq(s, K.payload(s, o.val, 'Some'), pl[0])))
                continue
            for s2, p2 in K.some(s, req0):
                if p2 is None:
                    K.ob('nothing to answer', s2, K.is_(s2, o.val, 'None'))
                else:
                    K.ob('unknown request is answered', s2, K.is_(s2, o.val, 'Some'))
                    r = K.payload(s2, o.val, 'Some')
                    K.ob('under its own id', s2, K.eq(s2, K.fld(s2, r, 'id'), K.fld(s2, p2[0], 'id')))
                    K.ob('exactly one of result and error', s2, one_of(K, s2, r))
                    K.ob('MethodNotFound', s2, err_code(K, s2, r) == -32601)

def c_process(E, st, func, args, dty):
    """call-site contract of RequestRouter::process (discharged by router_process)"""
    rt, h = args
    ty = kit.mir.def_key(split_generic(func))[-1]
    M = zstr(E.defs.methods[ty])
    fs = {n: (i, t) for i, (n, t) in enumerate(E.defs.structs['RequestRouter'])}
    v = E.read_ref(st, rt)
    req, resp = (E.get_field(st, v, None, *fs[n]) for n in ('req', 'resp'))
    for s, rp in E.option_cases(st, resp):
        if rp is not None:
            yield Outcome(s, rt)
            continue
        for s2, rq in E.option_cases(s, req):
            if rq is None:
                yield Outcome(s2, rt)
                continue
            rqs = {n: (i, t) for i, (n, t) in enumerate(E.defs.structs['lsp_server::Request'])}
            mt = E.get_field(s2, rq[0], None, *rqs['method'])
            a = E.branch(s2, mt != M)
            if a is not None:
                yield Outcome(a, rt)
            b = E.branch(s2, mt == M)
            if b is not None:
                r = E.fresh(b, ('adt', 'Response', ()), 'resp')
                i, t = fs['req']
                E.write_ref(b, rt, (('field', i, t),), E.none('Option<Request>'))
                i, t = fs['resp']
                E.write_ref(b, rt, (('field', i, t),), E.some(r, 'Option<Response>'))
                rps = {n: (i, t) for i, (n, t) in enumerate(E.defs.structs['lsp_server::Response'])}
                b.assume(E.term(b, E.get_field(b, r, None, *rps['id'])) == E.term(b, E.get_field(b, rq[0], None, *rqs['id'])))
                b.ghost['routed'] = list(b.ghost.get('routed', [])) + [(E.defs.methods[ty], h)]
                res, er = (E.discr(b, E.get_field(b, r, None, *rps[n])) for n in ('result', 'error'))
                b.assume(z3.Xor(res == 1, er == 1))
                yield Outcome(b, rt)

def split_generic(func):
    g = kit.vc.re.search(r'::<([^<>]*)>$', func)
    return g.group(1) if g else func

def c_changes(E, st, func, args, dty):
    """call-site contract of Dispatcher::process_changes (P03): sends publishDiagnostics notifications only; fails only if a send failed"""
    bad = st.fork()
    bad.ghost['send_failed'] = True
    yield Outcome(bad, VAdt('Result<(),Error>', 'Err', {0: E.fresh(bad, ('adt', 'Error', ()), 'err')}))
    v = E.read_ref(st, args[0])
    fs = {n: (i, t) for i, (n, t) in enumerate(E.defs.structs['Dispatcher'])}
    for n in ('memory', 'snapshots', 'version_check_fuel'):
        i, t = fs[n]
        E.write_ref(st, args[0], (('field', i, t),), E.fresh(st, t if n != 'snapshots' else 'HashMap<String, Snapshot>', 'hv_' + n))
    st.ghost['sent'] = list(st.ghost.get('sent', [])) + ['diagnostics*']
    yield Outcome(st, VAdt('Result<(),Error>', 'Ok', {0: UNIT}))

def c_cmd(E, st, func, args, dty):
    """call-site contract of process_command_response (discharged by command_response)"""
    bad = st.fork()
    bad.ghost['send_failed'] = True
    yield Outcome(bad, VAdt('Result<(),Error>', 'Err', {0: E.fresh(bad, ('adt', 'Error', ()), 'err')}))
    resp = args[2]
    rps = {n: (i, t) for i, (n, t) in enumerate(E.defs.structs['lsp_server::Response'])}
    st2 = st.fork()
    st.ghost['sent'] = list(st.ghost.get('sent', [])) + [VAdt('Message', 'Response', {0: resp})]
    yield Outcome(st, VAdt('Result<(),Error>', 'Ok', {0: UNIT}))
    ok = st2
    i, t = rps['result']
    ok.assume(E.discr(ok, E.get_field(ok, resp, None, i, t)) == 1)
    if E.feasible(ok):
        nul = E.write_projs(ok, resp, (('field', i, t),), E.some(E.fresh(ok, ('adt', 'Value', ()), 'null'), 'Option<Value>'))
        ok.ghost['sent'] = list(ok.ghost.get('sent', [])) + [VAdt('Message', 'Response', {0: nul}), VAdt('Message', 'Request', {0: E.fresh(ok, ('adt', 'Request', ()), 'edit')})]
        yield Outcome(ok, VAdt('Result<(),Error>', 'Ok', {0: UNIT}))

HR = 'Dispatcher::handle_request'

@contract(HR)
def handle_request(K):
    """any request: exactly one response is sent, under the request's id, with exactly one of result and error; supported methods are
    routed to their handler, others get MethodNotFound; an error return happens only when the client is gone"""
    E = K.E
    E.contracts['RequestRouter::process'] = c_process
    E.contracts['Dispatcher::process_changes'] = c_changes
    E.contracts['Dispatcher::process_command_response'] = c_cmd
    st = State()
    self_, req = K.args(HR, st)
    rid = K.fld(st, req, 'id', of='lsp_server::Request')
    method = K.fld(st, req, 'method', of='lsp_server::Request')
    for o in K.run(HR, [self_, req], st):
        s = o.st
        if s.ghost.get('send_failed'):
            K.ob('client gone: error is reported', s, K.is_(s, o.val, 'Err'))
            continue
        K.ob('Ok while the client is there', s, K.is_(s, o.val, 'Ok'))
        rs = [m for m in K.sent(s) if not isinstance(m, str) and K.variant(s, m) == 'Response']
        K.ob('exactly one response', s, z3.BoolVal(len(rs) == 1), info=str(K.sent(s))[:400])
        K.ob('no stray notification', s, z3.BoolVal(not any(not isinstance(m, str) and K.variant(s, m) == 'Notification' for m in K.sent(s))))
        if len(rs) == 1:
            r = K.payload(s, rs[0], 'Response')
            K.ob('under the id of the request', s, K.eq(s, K.fld(s, r, 'id'), rid))
            K.ob('exactly one of result and error', s, one_of(K, s, r))
            routed = s.ghost.get('routed', [])
            if not routed:
                for m, h in ROUTES:
                    K.ob(f'{m} is routed', s, method != zstr(m))
                K.ob('unsupported method: MethodNotFound', s, err_code(K, s, r) == -32601)
            else:
                K.ob('routed once', s, z3.BoolVal(len(routed) == 1))
                m, h = routed[0]
                want = dict(ROUTES).get(m)
                got = '::'.join(map(str, kit.mir.def_key(h.path))) if isinstance(h, VFn) else str(h)
                if want:
                    K.ob(f'{m} handled by {want}', s, z3.BoolVal(got.endswith('::' + want)), info=got)

PC = 'Dispatcher::process_command_response'

@contract(PC)
def command_response(K):
    """command responses: exactly one response under the same id and with the same error; when the result is turned into a workspace edit
    the response result is null and exactly one workspace/applyEdit request follows; otherwise the response is passed through unchanged"""
    st = State()
    self_, cmd, resp = K.args(PC, st)
    F = lambda s, r, n: K.fld(s, r, n, of='lsp_server::Response')
    for o in K.run(PC, [self_, cmd, resp], st):
        s = o.st
        if s.ghost.get('send_failed'):
            K.ob('client gone: error is reported', s, K.is_(s, o.val, 'Err'))
            continue
        K.ob('Ok while the client is there', s, K.is_(s, o.val, 'Ok'))
        ms = K.sent(s)
        kinds = [K.variant(s, m) for m in ms]
        K.ob('a response, then at most one workspace edit', s, z3.BoolVal(kinds in (['Response'], ['Response', 'Request'])), info=str(kinds))
        if not kinds or kinds[0] != 'Response':
            continue
        r = K.payload(s, ms[0], 'Response')
        K.ob('same id', s, K.eq(s, F(s, r, 'id'), F(s, resp, 'id')))
        K.ob('same error', s, K.eq(s, F(s, r, 'error'), F(s, resp, 'error')))
        if len(ms) == 1:
            K.ob('passed through unchanged', s, K.eq(s, F(s, r, 'result'), F(s, resp, 'result')))
        else:
            K.ob('only a successful result becomes an edit', s, K.is_(s, F(s, resp, 'result'), 'Some'))
            K.ob('null result', s, z3.And(K.is_(s, F(s, r, 'result'), 'Some'), K.is_(s, K.payload(s, F(s, r, 'result'), 'Some'), 'Null')))
            q = K.payload(s, ms[1], 'Request')
            K.ob('the request is workspace/applyEdit', s, K.eq(s, K.fld(s, q, 'method', of='lsp_server::Request'), 'workspace/applyEdit'))
            K.ob('edits only for the three project commands', s, z3.Or([K.eq(s, cmd, c) for c in ('createProject', 'migrateProject', 'extractEvent')]))

NP = 'NotificationRouter::process'

@contract(NP)
def notification_process(K):
    """process::<N>: a pending notification of another method is left untouched; of this method it is consumed, and Ok is returned iff its params decode and the handler succeeds"""
    st = State()
    rt, h = K.args(NP, st)
    n0 = K.fld(st, rt, 'not')
    for o in K.run(NP, [rt, h], st):
        s = o.st
        n1 = K.fld(s, rt, 'not')
        for s1, pl in K.some(s, n0):
            if pl is None:
                K.ob('nothing pending: unchanged', s1, z3.And(K.is_(s1, n1, 'None'), K.is_(s1, o.val, 'Ok')))
                continue
            M = K.E.eval_const(s1, ('path', '<N as lsp_types::notification::Notification>::METHOD'), 'str')
            match = K.eq(s1, K.fld(s1, pl[0], 'method', of='lsp_server::Notification'), M)
            a = K.E.branch(s1, z3.Not(match))
            if a is not None:
                K.ob('other method: unchanged', a, z3.And(K.eq(a, n1, n0), K.is_(a, o.val, 'Ok')))
            b = K.E.branch(s1, match)
            if b is not None:
                K.ob('consumed', b, K.is_(b, n1, 'None'))

HS = 'Dispatcher::handle_response'

@contract(HS)
def handle_response(K):
    """a client response never produces a response; at most one window/showDocument request is sent, and only for ids the server made; errors only when the client is gone"""
    st = State()
    self_, resp = K.args(HS, st)
    for o in K.run(HS, [self_, resp], st):
        s = o.st
        if s.ghost.get('send_failed'):
            continue
        K.ob('Ok while the client is there', s, K.is_(s, o.val, 'Ok'))
        ms = K.sent(s)
        K.ob('at most one message', s, z3.BoolVal(len(ms) <= 1))
        for m in ms:
            K.ob('it is a request', s, z3.BoolVal(K.variant(s, m) == 'Request'))
            if K.variant(s, m) == 'Request':
                K.ob('it is window/showDocument', s, K.eq(s, K.fld(s, K.payload(s, m, 'Request'), 'method', of='lsp_server::Request'), 'window/showDocument'))

ML = 'dispatch::main_loop'

def c_dispatch(kind, sends_fail_only):
    def f(E, st, func, args, dty):
        bad = st.fork()
        if sends_fail_only:
            bad.ghost['send_failed'] = True
        bad.ghost['calls'] = list(bad.ghost.get('calls', [])) + [(kind, args[1])]
        yield Outcome(bad, VAdt('Result<(),Error>', 'Err', {0: E.fresh(bad, ('adt', 'Error', ()), 'err')}))
        st.ghost['calls'] = list(st.ghost.get('calls', [])) + [(kind, args[1])]
        yield Outcome(st, VAdt('Result<(),Error>', 'Ok', {0: UNIT}))
    return f

@contract(ML)
def main_loop(K):
    """one arbitrary iteration of the main loop: every received message is handed, unchanged, to the handler of its kind exactly once;
    the loop ends only on exit, shutdown, a closed channel or a failed send - never because of the contents of a message"""
    E = K.E
    E.contracts['Dispatcher::handle_request'] = c_dispatch('Request', True)
    E.contracts['Dispatcher::handle_notification'] = c_dispatch('Notification', False)
    E.contracts['Dispatcher::handle_response'] = c_dispatch('Response', True)
    def shutdown(E, st, func, args, dty):
        m = K.eq(st, K.fld(st, args[1], 'method', of='lsp_server::Request'), 'shutdown')
        a = E.branch(st, z3.Not(m))
        if a is not None:
            yield Outcome(a, VAdt('Result<bool,ProtocolError>', 'Ok', {0: z3.BoolVal(False)}))
        b = E.branch(st, m)
        if b is not None:
            b.ghost['shutdown'] = True
            c = b.fork()
            yield Outcome(b, VAdt('Result<bool,ProtocolError>', 'Ok', {0: z3.BoolVal(True)}))
            yield Outcome(c, VAdt('Result<bool,ProtocolError>', 'Err', {0: E.fresh(c, ('adt', 'ProtocolError', ()), 'perr')}))
    E.contracts['Connection::handle_shutdown'] = shutdown
    E.contracts['_eprint'] = lambda E, st, func, args, dty: [Outcome(st, UNIT)]
    def nxt(E, st, func, args, dty):
        b = st.fork()
        b.ghost['closed'] = True
        yield Outcome(b, VAdt('Option<Message>', 'None', {}))
        m = E.fresh(st, ('adt', 'Message', ()), 'msg')
        st.ghost['msg'] = m
        st.ghost['calls'] = []
        yield Outcome(st, VAdt('Option<Message>', 'Some', {0: m}))
    E.contracts['<Iter as Iterator>::next'] = nxt
    E.cut_fns.add(ML)
    st = State()
    conn, caps = K.args(ML, st)
    outs = K.run(ML, [conn, caps], st)
    its = E.iterations.get(ML)
    if not its:
        raise LostAnchor('the message loop')
    def dispatched(s, live):
        m = s.ghost.get('msg')
        calls = s.ghost.get('calls', [])
        for s2, vn, v in K.cases(s, m, 'Message'):
            want = K.payload_of(s2, m, vn) if False else E.field_of_term(s2, m, None, vn, 0, {'Request': 'lsp_server::Request', 'Response': 'lsp_server::Response', 'Notification': 'lsp_server::Notification'}[vn])
            K.ob(f'{vn}: handled exactly once, by its handler' + live, s2, z3.BoolVal([c[0] for c in calls] == [vn]), info=str(calls))
            if len(calls) == 1:
                K.ob(f'{vn}: passed on unchanged' + live, s2, K.eq(s2, calls[0][1], want))
    for bb, fr, pre, back, os_ in its:
        for s in back:
            K.reach += 1
            dispatched(s, '')
    for o in outs:
        s = o.st
        if s.ghost.get('closed'):
            K.ob('channel closed: Ok', s, K.is_(s, o.val, 'Ok'))
            continue
        m = s.ghost.get('msg')
        if m is None:
            K.ob('returns only from the loop', s, z3.BoolVal(False))
            continue
        if s.ghost.get('send_failed'):
            dispatched(s, ' (client gone)')
            continue
        if s.ghost.get('shutdown'):
            continue
        d = E.discr(s, m)
        n = E.field_of_term(s, m, None, 'Notification', 0, 'lsp_server::Notification')
        K.ob('session ends only on exit, shutdown, disconnect', s,
             z3.And(d == E.defs.variant_index('Message', 'Notification'), K.eq(s, K.fld(s, n, 'method', of='lsp_server::Notification'), 'exit'), K.is_(s, o.val, 'Ok')))
