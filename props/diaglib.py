"""What the diagnostics properties share: `results: &mut Vec<Diagnostic>` as an append-only log, one arbitrary iteration per loop, and the ranges of
syntax nodes.  A contract says of every place that appends exactly when it appends and with which range and severity."""
import z3
import kit
from kit import *

D = 'analysis::diagnostics::'
UT = 'analysis::utils::'
TR = 'rowan::api::SyntaxNode::text_range'

def vi(K, en, v):
    return K.E.defs.variant_index(en, v)

def ext(K, s, name, args, ty):
    return K.E.symval(s, K.E.nty(ty), 'ext:' + name, [K.t(s, a) for a in args])

def ent(K, s, item, method, ty, T='T', trait='InkEntity'):
    """a method of the entity's trait: the engine names it with or without the type argument, whichever the code used"""
    for n in (f"('as', '{T}', '{trait}')::{method}", f"('as', '{T}', '{trait}')::{method}@<{T}>"):
        if any(k[0] == 'ext:' + n for k in K.E.funcs):
            return ext(K, s, n, [item], ty)
    return ext(K, s, f"('as', '{T}', '{trait}')::{method}", [item], ty)

def node_range(K, s, node):
    return ext(K, s, TR, [node], 'TextRange')

def acc(K, s, obj, ty, name, ety):
    """the accessor of an entity (a derived method of the ir crate)"""
    return ext(K, s, f'ink_analyzer_ir::{ty}::{name}', [obj], f'Vec<{ety}>')

QUIET = ['Action::remove_attribute', 'Action::remove_item', 'Action::move_item', 'Action::move_item_with_affixes', 'TextEdit::delete', 'TextEdit::insert',
         'TextEdit::replace', 'TextEdit::replace_with_snippet', 'TextEdit::insert_with_snippet', 'TextEdit::new']

def start(K, *calls, opaque=()):
    """calls: functions that append to the log themselves (checked against their own contracts); opaque: pure functions"""
    K.opaque(*QUIET, *opaque)
    for name in calls:
        def c(E, st, func, args, dty, name=name):
            st.ghost['log'] = list(st.ghost['log']) + [('call', name, tuple(args[1:]))]
            yield Outcome(st, UNIT)
        K.E.contracts[name] = c
    st = State()
    st.ghost['log'] = []
    return st

class Src:
    """what one source of elements contributes: paths = [(state, element, events)]"""
    def __init__(self, it, s):
        self.it, self.s, self.paths = it, s, []

def same(E, a, b):
    return is_term(a) and is_term(b) and a.sort() == b.sort() and (a.eq(b) or z3.simplify(a).eq(z3.simplify(b)))

def stage_key(it):
    return tuple(k for k, _ in getattr(it, 'stages', ()))

def trace(K, fn, outs):
    """(final traces, sources): final traces = [(outcome, [events outside loops])], sources = [Src]"""
    E = K.E
    srcs = []
    def expand(s, evs, into):
        """a bulk append is a source of its own"""
        rest = []
        for e in evs:
            if e[0] == 'extend':
                for part in K.parts(s, e[1]):
                    if isinstance(part, VIter):
                        rest += [('push', x) for x in part.items]
                        continue
                    sr = Src(part, s)
                    for s2, x, kept, val in E.iter_elem(E, s, part):
                        if s2.ghost.get('inner_none'):
                            continue
                        sr.paths.append((s2, x, [('push', val)] if kept else []))
                    srcs.append(sr)
            else:
                rest.append(e)
        return rest
    for f, its in E.iterations.items():
        for bb, fr, pre, back, os_ in its:
            n = len(pre.ghost.get('log', []))
            d = len(pre.ghost.get('its', ()))
            here = []
            for s in back:
                if len(s.ghost.get('its', ())) <= d:
                    raise ToolLimit('loop whose element is not known')
                v, x, y, idx = s.ghost['its'][d]
                sr = [q for q in here if isinstance(v, VSymIter) and isinstance(q.it, VSymIter) and same(E, q.it.src, v.src) and stage_key(q.it) == stage_key(v)]
                if not sr:
                    sr = [Src(v, pre)]
                    here += sr
                sr[0].paths.append((s, x, expand(s, list(s.ghost.get('log', [])[n:]), srcs)))
            for sr in here:
                if stage_key(sr.it):
                    for s2, x, kept, val in E.iter_elem(E, pre, sr.it):
                        if not kept and not s2.ghost.get('inner_none') and not s2.ghost.get('dup'):
                            sr.paths.append((s2, x, []))
                srcs.append(sr)
    fin = []
    for o in outs:
        fin.append((o, expand(o.st, o.st.ghost['log'], srcs)))
    return fin, srcs

def own(evs):
    return [e for e in evs if e[0] != '*']

def diag_is(K, s, what, ev, rng, sev='Error'):
    if ev[0] != 'push':
        raise ToolLimit('unexpected ' + str(ev[:2]))
    d = ev[1]
    if rng is not None:
        K.ob(f'{what}: reported there', s, K.eq(s, K.fld(s, d, 'range'), rng))
    sv = K.fld(s, d, 'severity')
    K.ob(f'{what}: as {sev.lower() if isinstance(sev, str) else "asked"}', s, K.t(s, sv) == (vi(K, 'Severity', sev) if isinstance(sev, str) else K.t(s, sev)))

def iff(K, s, what, evs, cond, rng, sev='Error'):
    """exactly one diagnostic if the condition holds, none otherwise"""
    evs = own(evs)
    if len(evs) > 1:
        K.ob(f'{what}: reported once', s, z3.BoolVal(False), info=str(evs)[:300])
        return
    K.ob(f'{what}: reported exactly if violated', s, (cond if not isinstance(cond, bool) else z3.BoolVal(cond)) == z3.BoolVal(len(evs) == 1))
    for e in evs:
        diag_is(K, s, what, e, rng, sev)

def option_diag(K, o, what, cond, rng, sev='Error'):
    """a function that gives Option<Diagnostic>"""
    K.ob(f'{what}: reported exactly if violated', o.st, K.is_(o.st, o.val, 'Some', 'Option') == cond)
    for s, p in K.some(o.st, o.val):
        if p is not None:
            diag_is(K, s, what, ('push', p[0]), rng(s) if callable(rng) else rng, sev)

def at_src(K, srcs, seq, stages=None):
    """the sources over exactly that sequence"""
    r = [x for x in srcs if isinstance(x.it, VSymIter) and same(K.E, x.it.src, seq)]
    return r

def offset(K, s, src, seq):
    """`src` is `seq` from some position on: that position"""
    seq = K.t(s, seq)
    if same(K.E, src, seq):
        return 0
    if is_term(src) and src.decl().name() == 'tail' and same(K.E, src.arg(0), seq) and z3.is_int_value(z3.simplify(src.arg(1))):
        return z3.simplify(src.arg(1)).as_long()
    return None

def driver(K, fn, once=(), opts=(), loops=(), opaque=(), cond=None, already=False, **over):
    """a function that runs checks: each of `once` (callee, wanted arguments as a function of (state, args)) exactly once, the diagnostic of each of
    `opts` exactly if it gives one, and for every element of each `loops` sequence its checks; `cond`: {callee: condition under which it runs}"""
    E = K.E
    cond = cond or {}
    names = [c for c, _ in once] + [c for _, cs in loops for c in cs]
    st = start(K, *names, opaque=tuple(opaque) + (() if already else tuple(o if isinstance(o, str) else o[0] for o in opts)))
    E.cut_fns.add(fn)
    a = K.args(fn, st, **over)
    outs = K.run(fn, a, st)
    fin, srcs = trace(K, fn, outs)
    for o, evs in fin:
        s = o.st
        evs = own(evs)
        for name, want in once:
            got = [e for e in evs if e[0] == 'call' and e[1] == name]
            c = cond[name](K, s, a) if name in cond else z3.BoolVal(True)
            ok = len(got) == 1
            K.ob(f'{name}: runs exactly once' + (' when it applies' if name in cond else ''), s, c == z3.BoolVal(ok) if len(got) <= 1 else z3.BoolVal(False))
            if ok:
                w = want(K, s, a)
                if len(w) > len(got[0][2]):
                    raise ToolLimit('arguments of ' + name)
                for i, (g, x) in enumerate(zip(got[0][2], w)):
                    if x is not None:
                        K.ob(f'{name}: on the item', s, K.eq(s, g, x))
        extra = [e for e in evs if e[0] == 'call' and e[1] not in [c for c, _ in once]]
        if extra:
            K.ob('no other check outside the loops', s, z3.BoolVal(False), info=str([e[1] for e in extra]))
        pushed = [e[1] for e in evs if e[0] == 'push']
        specs = []
        for op in opts:
            name, want = op if not isinstance(op, str) else (op, None)
            args = want(K, s, a) if want else [a[1]]
            c = cond[name](K, s, a) if name in cond else z3.BoolVal(True)
            sp = K.spec(s, name, args, 'Option<Diagnostic>')
            some = z3.And(c, K.is_(s, sp, 'Some', 'Option'))
            pay = K.payload(s, sp, 'Some')
            specs.append((some, pay))
            K.ob(f'{name}: its diagnostic is reported', s, z3.Implies(some, z3.Or([K.eq(s, p, pay) for p in pushed] or [z3.BoolVal(False)])))
        for p in pushed:
            K.ob('nothing else is reported', s, z3.Or([z3.And(c, K.eq(s, p, q)) for c, q in specs] or [z3.BoolVal(False)]))
    unmatched = list(srcs)
    for seqf, callees in loops:
        hit = []
        for sr in srcs:
            seq = seqf(K, sr.s, a)
            if isinstance(sr.it, VSymIter) and offset(K, sr.s, sr.it.src, seq) == 0:
                hit.append(sr)
        for sr in hit:
            unmatched = [u for u in unmatched if u is not sr]
        for callee in callees:
            K.hits = hit
            n = 0
            # per loop over the sequence: which callee it runs
            loops_with = [sr for sr in hit if any(e[0] == 'call' and e[1] == callee for _, _, evs in sr.paths for e in evs)]
            if not loops_with:
                if unmatched:
                    raise ToolLimit(f'{callee}: no loop over the sequence found')
                K.fail(f'{callee}: runs for every element')
                continue
            for sr in loops_with:
                for s, x, evs in sr.paths:
                    got = [e for e in evs if e[0] == 'call' and e[1] == callee]
                    c = cond[callee](K, s, a) if callee in cond else z3.BoolVal(True)
                    K.ob(f'{callee}: runs for every element', s, c == z3.BoolVal(len(got) == 1))
                    for g in got:
                        K.ob(f'{callee}: on the element', s, K.eq(s, g[2][0], x))
    for u in unmatched:
        if any(own(evs) for _, _, evs in u.paths):
            raise ToolLimit('a loop over something else: ' + str(getattr(u.it, 'src', u.it))[:100])
    return a, fin, srcs

def every(K, fn, outs, st, seqs, names, want):
    """for every element of each sequence the optional diagnostic `want` is reported, nothing else"""
    E = K.E
    fin, srcs = trace(K, fn, outs)
    hit = set()
    for sr in srcs:
        g = [i for i, q in enumerate(seqs) if isinstance(sr.it, VSymIter) and same(E, sr.it.src, K.t(st, q))]
        if not g:
            raise ToolLimit('source of the items')
        hit.add(g[0])
        for s, x, evs in sr.paths:
            sp = want(s, x)
            evs = own(evs)
            if len(evs) > 1:
                raise ToolLimit('several diagnostics for one element')
            K.ob(f'{names[g[0]]}: what the check gives is reported', s, z3.BoolVal(len(evs) == 1) == K.is_(s, sp, 'Some', 'Option'))
            for e in evs:
                K.ob(f'{names[g[0]]}: its diagnostic', s, K.eq(s, e[1], K.payload(s, sp, 'Some')))
    for i, n in enumerate(names):
        K.ob(f'all {n} are looked at', st, z3.BoolVal(i in hit))
    for o, evs in fin:
        K.ob('nothing else is reported', o.st, z3.BoolVal(not own(evs)))

def spec_seq(K, s, name, args, ety):
    return K.E.symval(s, K.E.nty(f'Vec<{ety}>'), 'spec:' + name, [K.t(s, a) for a in args])

def iters(K, name, ety):
    """a function that gives an iterator: some sequence, determined by its arguments"""
    def c(E, st, func, args, dty):
        yield Outcome(st, VSymIter(spec_seq(K, st, name, [K.deref(st, a) for a in args], ety), ety))
    K.E.contracts[name] = c

RA = 'ink_analyzer_ir::ast::'

def known(K, suffix, default):
    """the name under which the code used a library method (generic or not, re-exported or not)"""
    r = sorted({k[0] for k in K.E.funcs if k[0].startswith('ext:') and suffix(k[0][4:])}, key=len)
    return r[0][4:] if r else default

def am(K, s, obj, ty, method, ret):
    """an inherent accessor of a syntax type; `ret` may be a node, token or anything else"""
    n = known(K, lambda n: n.endswith(f'::{ty}::{method}') and 'ast' in n, f'ink_analyzer_ir::ast::{ty}::{method}')
    if not n.endswith(f'{ty}::{method}') or not any(k[0] == 'ext:' + n for k in K.E.funcs):
        n = known(K, lambda n: n.endswith(f'node_ext::{method}'), n)
    return ext(K, s, n, [obj], ret)

def tm(K, s, obj, trait, method, ret, ty=None):
    """a trait method, as the code used it"""
    def ok(n):
        b = n.split('@')[0]
        return b.endswith(f"'{trait}')::{method}") and (ty is None or f"'as', '{ty}'" in b or f"'as', 'T'" in b)
    n = known(K, ok, f"('as', '{ty or 'T'}', '{trait}')::{method}")
    return ext(K, s, n, [obj], ret)

def some_(K, s, v):
    return K.is_(s, v, 'Some', 'Option')

def pay(K, s, v):
    return K.payload(s, v, 'Some')

def stx(K, s, node, ty):
    """the syntax node of a typed node"""
    n = f"('as', '{ty}', 'AstNode')::syntax"
    if not any(k[0] == 'ext:' + n for k in K.E.funcs):
        n = known(K, lambda m: m.startswith(n + '@'), n)
    return ext(K, s, n, [node], 'SyntaxNode')

def nrange(K, s, node, ty):
    return node_range(K, s, stx(K, s, node, ty))

def trange(K, s, tok):
    return ext(K, s, 'rowan::api::SyntaxToken::text_range', [tok], 'TextRange')

def text_of(K, s, node, ty):
    # a typed node displays as its syntax node does
    t = K.E.symval(s, K.E.nty('String'), f'display:{ty}:{ty}', [K.t(s, node)])
    s.assume(K.t(s, t) == K.t(s, K.E.symval(s, K.E.nty('String'), 'display:SyntaxNode:SyntaxNode', [K.t(s, stx(K, s, node, ty))])))
    return t

def rules(K, s, evs, specs):
    """the pushed diagnostics are exactly those whose condition holds; specs = [(what, condition, range)]"""
    pushed = [e[1] for e in own(evs) if e[0] == 'push']
    at = [(K.fld(s, d, 'range'), K.fld(s, d, 'severity')) for d in pushed]
    err = vi(K, 'Severity', 'Error')
    for what, cond, rng in specs:
        K.ob(f'{what}: reported there if violated', s, z3.Implies(cond, z3.Or([z3.And(K.eq(s, r, rng), K.t(s, v) == err) for r, v in at] or [z3.BoolVal(False)])))
    for r, v in at:
        K.ob('nothing else is reported', s, z3.Or([z3.And(c, K.eq(s, r, g), K.t(s, v) == err) for _, c, g in specs] or [z3.BoolVal(False)]))
    K.ob('each once', s, z3.Sum([z3.If(c, 1, 0) for _, c, _ in specs] + [z3.IntVal(0)]) == len(pushed))

def elems_of(K, fin, srcs, seq_of, what, per):
    """every source is over the wanted sequence and contributes what `per(state, element, events)` asks"""
    n = 0
    for sr in srcs:
        seq = seq_of(sr.s)
        if not (isinstance(sr.it, VSymIter) and same(K.E, sr.it.src, K.t(sr.s, seq))):
            raise ToolLimit(f'{what}: source of the elements')
        for s, x, evs in sr.paths:
            n += 1
            per(s, x, evs)
    if not n:
        raise LostAnchor(what)
UTILS = [UT + q for q in ('node_and_trivia_range', 'token_and_trivia_range', 'node_and_delimiter_range', 'token_and_delimiter_range', 'ink_arg_and_delimiter_removal_range', 'ast_item_declaration_range',
    'ink_trait_declaration_range', 'ink_impl_declaration_range', 'first_ink_attribute_insert_offset', 'contract_declaration_range', 'item_children_indenting', 'assoc_item_insert_offset_end')]

def raw(K, s, name, args):
    """a library function with a type of its own (iterators), as the code used it"""
    ts = [K.t(s, a) for a in args]
    for k, f in K.E.funcs.items():
        if k[0] == 'ext:' + name and f.arity() == len(ts) and all(f.domain(i) == x.sort() for i, x in enumerate(ts)):
            return f(*ts)
    raise ToolLimit(name + ' is not used')
