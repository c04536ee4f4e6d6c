"""P04: offsets and client positions translate into each other without loss, in every position encoding."""
import z3
import kit
from kit import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['line_index::LineIndex (dependency) contract: lines partition [0, len]; try_line_col(o) is Some((line_of(o), o - start(line_of(o)))) iff o <= len and o is a character boundary; '
               'offset((l, c)) is Some(start(l) + c) iff line l exists; to_wide/to_utf8 keep the line and are inverse on character boundaries of existing lines; to_wide is defined on boundaries; '
               'the text is shorter than 4 GiB (asserted by LineIndex::new)']

I = z3.IntSort()

def li_axioms(E, st, li):
    """the assumed contract of LineIndex, over spec functions of the index"""
    S = li.sort()
    start = z3.Function('li_start', S, I, I)
    nl = z3.Function('li_lines', S, I)        # number of lines, >= 1
    ln = z3.Function('li_len', S, I)
    lof = z3.Function('li_line_of', S, I, I)
    bnd = z3.Function('li_boundary', S, I, z3.BoolSort())
    wide = z3.Function('li_wide', S, I, I, I, I)   # enc, line, col -> col
    utf8 = z3.Function('li_utf8', S, I, I, I, I)
    utf8ok = z3.Function('li_utf8_ok', S, I, I, I, z3.BoolSort())
    return start, nl, ln, lof, bnd, wide, utf8, utf8ok

def inst_line(li, sp, l):
    """instances of the line axioms at line l: lines start inside the text, at boundaries, after a newline"""
    start, nl, ln, lof, bnd, wide, utf8, utf8ok = sp
    return z3.And(z3.Implies(z3.And(l >= 0, l < nl(li)), z3.And(start(li, l) >= 0, start(li, l) <= ln(li), bnd(li, start(li, l)))),
                  z3.Implies(z3.And(l >= 1, l < nl(li)), z3.And(start(li, l) >= start(li, l - 1) + 1, bnd(li, start(li, l) - 1))))

def inst_off(li, sp, o):
    """instances of the partition axioms at offset o"""
    start, nl, ln, lof, bnd, wide, utf8, utf8ok = sp
    L = lof(li, o)
    return z3.Implies(z3.And(o >= 0, o <= ln(li)), z3.And(L >= 0, L < nl(li), start(li, L) >= 0, start(li, L) <= o, z3.Or(L + 1 == nl(li), o < start(li, L + 1)),
                                                        inst_line(li, sp, L), inst_line(li, sp, L + 1)))

def inst_in(li, sp, l, o):
    """instance of disjointness: an offset inside line l has line l"""
    start, nl, ln, lof, bnd, wide, utf8, utf8ok = sp
    return z3.Implies(z3.And(l >= 0, l < nl(li), o >= 0, o <= ln(li), start(li, l) <= o, z3.Or(l + 1 == nl(li), o < start(li, l + 1))), lof(li, o) == l)

def assume_index(E, st, li):
    sp = li_axioms(E, st, li)
    start, nl, ln, lof, bnd, wide, utf8, utf8ok = sp
    U32 = (1 << 32) - 1
    st.assume(z3.And(nl(li) >= 1, nl(li) <= U32, ln(li) >= 0, ln(li) < U32, start(li, 0) == 0, bnd(li, ln(li))))
    return sp

def install(K):
    E = K.E
    fs = lambda s, n: {x: (i, t) for i, (x, t) in enumerate(E.defs.structs[n])}
    def get(st, v, n, f):
        i, t = fs(st, n)[f]
        return E.term(st, E.get_field(st, E.read_ref(st, v) if isinstance(v, VRef) else v, None, i, t))
    def lc(n, line, col):
        return VAdt(n, None, {0: line, 1: col})
    def c_try(E, st, func, args, dty):
        li, o = E.term(st, args[0]), E.term(st, args[1])
        start, nl, ln, lof, bnd, wide, utf8, utf8ok = li_axioms(E, st, li)
        ok = z3.And(o >= 0, o <= ln(li), bnd(li, o))
        st.assume(inst_off(li, (start, nl, ln, lof, bnd, wide, utf8, utf8ok), o))
        a = E.branch(st, ok)
        if a is not None:
            yield Outcome(a, VAdt('Option<LineCol>', 'Some', {0: lc('LineCol', lof(li, o), o - start(li, lof(li, o)))}))
        b = E.branch(st, z3.Not(ok))
        if b is not None:
            yield Outcome(b, VAdt('Option<LineCol>', 'None', {}))
    def c_off(E, st, func, args, dty):
        li = E.term(st, args[0])
        line, col = (get(st, args[1], 'line_index::LineCol', f) for f in ('line', 'col'))
        start, nl, ln, lof, bnd, wide, utf8, utf8ok = li_axioms(E, st, li)
        ok = z3.And(line >= 0, line < nl(li))
        st.assume(inst_line(li, (start, nl, ln, lof, bnd, wide, utf8, utf8ok), line))
        a = E.branch(st, ok)
        if a is not None:
            r = start(li, line) + col
            bad = E.branch(a.fork(), r > (1 << 32) - 1)
            if bad is not None:
                yield Outcome(bad, None, 'TextSize + overflow in LineIndex::offset')
            g = E.branch(a, r <= (1 << 32) - 1)
            if g is not None:
                yield Outcome(g, VAdt('Option<TextSize>', 'Some', {0: r}))
        b = E.branch(st, z3.Not(ok))
        if b is not None:
            yield Outcome(b, VAdt('Option<TextSize>', 'None', {}))
    def c_wide(E, st, func, args, dty):
        li, e = E.term(st, args[0]), E.term(st, args[1])
        line, col = (get(st, args[2], 'line_index::LineCol', f) for f in ('line', 'col'))
        start, nl, ln, lof, bnd, wide, utf8, utf8ok = li_axioms(E, st, li)
        w = wide(li, e, line, col)
        o = start(li, line) + col
        isb = z3.And(line >= 0, line < nl(li), col >= 0, o <= ln(li), bnd(li, o), lof(li, o) == line)
        st.assume(z3.Implies(isb, z3.And(utf8ok(li, e, line, w), utf8(li, e, line, w) == col, w >= 0, w <= col)))
        a = E.branch(st, isb)
        if a is not None:
            yield Outcome(a, VAdt('Option<WideLineCol>', 'Some', {0: lc('WideLineCol', line, w)}))
        b = E.branch(st, z3.Not(isb))
        if b is not None:
            yield Outcome(b, VAdt('Option<WideLineCol>', 'None', {}))
            c = b.fork()
            yield Outcome(c, VAdt('Option<WideLineCol>', 'Some', {0: lc('WideLineCol', line, w)}))
    def c_utf8(E, st, func, args, dty):
        li, e = E.term(st, args[0]), E.term(st, args[1])
        line, col = (get(st, args[2], 'line_index::WideLineCol', f) for f in ('line', 'col'))
        start, nl, ln, lof, bnd, wide, utf8, utf8ok = li_axioms(E, st, li)
        w = utf8(li, e, line, col)
        ok = utf8ok(li, e, line, col)
        a = E.branch(st, ok)
        if a is not None:
            a.assume(z3.And(w >= col, w <= (1 << 32) - 1))
            yield Outcome(a, VAdt('Option<LineCol>', 'Some', {0: lc('LineCol', line, w)}))
        b = E.branch(st, z3.Not(ok))
        if b is not None:
            yield Outcome(b, VAdt('Option<LineCol>', 'None', {}))
    def c_len(E, st, func, args, dty):
        li = E.term(st, args[0])
        yield Outcome(st, li_axioms(E, st, li)[2](li))
    for n, c in (('try_line_col', c_try), ('offset', c_off), ('to_wide', c_wide), ('to_utf8', c_utf8), ('len', c_len)):
        E.contracts['LineIndex::' + n] = c

def context(K, st, fn, i):
    a = K.args(fn, st)
    cx = a[i]
    li = K.t(st, K.fld(st, cx, 'line_index'))
    sp = assume_index(K.E, st, li)
    enc = K.t(st, K.fld(st, cx, 'encoding'))
    k = {}
    for n in ('UTF8', 'UTF16', 'UTF32'):
        k[n] = K.E.term(st, K.E.eval_const(st, ('path', f'lsp_types::PositionEncodingKind::{n}'), 'lsp_types::PositionEncodingKind'))
    st.assume(z3.Distinct(*k.values()))
    return a, li, sp, enc, k

def wide_enc(K, enc, k):
    return z3.If(enc == k['UTF32'], K.E.defs.variant_index('WideEncoding', 'Utf32'), K.E.defs.variant_index('WideEncoding', 'Utf16'))

TP, FO, TR, FR = 'translator::to_lsp::position', 'translator::from_lsp::offset', 'translator::to_lsp::range', 'translator::from_lsp::text_range'

def pos(K, st, v):
    return K.t(st, K.fld(st, v, 'line', of='lsp_types::Position')), K.t(st, K.fld(st, v, 'character', of='lsp_types::Position'))

def spec_pos(K, st, li, sp, enc, k, o):
    start, nl, ln, lof, bnd, wide, utf8, utf8ok = sp
    col = o - start(li, lof(li, o))
    w = z3.Or(enc == k['UTF16'], enc == k['UTF32'])
    return lof(li, o), z3.If(w, wide(li, wide_enc(K, enc, k), lof(li, o), col), col)

@contract(TP)
def to_position(K):
    """position(o) exists iff o is a character boundary of the text; it is (line of o, column in units of the negotiated encoding)"""
    install(K)
    st = State()
    a, li, sp, enc, k = context(K, st, TP, 1)
    start, nl, ln, lof, bnd, wide, utf8, utf8ok = sp
    o = K.t(st, a[0])
    st.assume(o >= 0)
    st.assume(inst_off(li, sp, o))
    for out in K.run(TP, a, st):
        s = out.st
        ok = z3.And(o <= ln(li), bnd(li, o))
        K.ob('defined exactly on character boundaries', s, K.is_(s, out.val, 'Some') == ok)
        for s2, pl in K.some(s, out.val):
            if pl:
                l, c = pos(K, s2, pl[0])
                wl, wc = spec_pos(K, s2, li, sp, enc, k, o)
                K.ob('line', s2, l == wl)
                K.ob('column in the negotiated encoding', s2, c == wc)

@contract(FO)
def from_position(K):
    """offset(p): absent for missing lines; otherwise on the line of p, at a character boundary, inside the text; never panics.
    Lemma: offset(position(o)) == o for every character boundary o"""
    install(K)
    st = State()
    a, li, sp, enc, k = context(K, st, FO, 1)
    start, nl, ln, lof, bnd, wide, utf8, utf8ok = sp
    l, c = pos(K, st, a[0])
    st.assume(z3.And(l >= 0, l <= (1 << 32) - 1, c >= 0, c <= (1 << 32) - 1))
    base = st.fork()
    for out in K.run(FO, a, st):
        s = out.st
        K.ob('missing line: rejected', s, z3.Implies(l >= nl(li), K.is_(s, out.val, 'None')))
        for s2, pl in K.some(s, out.val):
            if pl:
                r = K.t(s2, pl[0])
                s2.assume(inst_in(li, sp, l, r))
                K.ob('inside the text', s2, z3.And(r >= 0, r <= ln(li)))
                K.ob('character boundary', s2, bnd(li, r))
                K.ob('on the line of the position', s2, lof(li, r) == l)
            else:
                w = z3.Or(enc == k['UTF16'], enc == k['UTF32'])
                col = z3.If(w, utf8(li, wide_enc(K, enc, k), l, c), c)
                K.ob('rejected only for missing lines and positions inside a character', s2,
                     z3.Or(l >= nl(li), z3.And(w, z3.Not(utf8ok(li, wide_enc(K, enc, k), l, c))), z3.Not(bnd(li, start(li, l) + col))))
    # round trip
    rt = base.fork()
    o = z3.Int('o!rt')
    rt.assume(z3.And(o >= 0, o <= ln(li), bnd(li, o)))
    rt.assume(inst_off(li, sp, o))
    wl, wc = spec_pos(K, rt, li, sp, enc, k, o)
    rt.assume(z3.And(l == wl, c == wc))
    col = o - start(li, lof(li, o))
    e = wide_enc(K, enc, k)
    w = wide(li, e, wl, col)
    rt.assume(z3.And(utf8ok(li, e, wl, w), utf8(li, e, wl, w) == col, w >= 0, w <= col))   # LineIndex: inverse on boundaries
    n = 0
    for out in K.run(FO, a, rt):
        n += 1
        K.ob('round trip: defined', out.st, K.is_(out.st, out.val, 'Some'))
        for s2, pl in K.some(out.st, out.val):
            if pl:
                K.ob('round trip: offset(position(o)) == o', s2, K.t(s2, pl[0]) == o)

@contract(TR)
def to_range(K):
    """range(r) is exactly (position(start), position(end)), defined iff both are"""
    K.opaque('to_lsp::position')
    st = State()
    r, cx = a = K.args(TR, st)
    for out in K.run(TR, a, st):
        s = out.st
        s0, e0 = K.E.tr_parts(K.E, s, K.deref(s, r))
        p0, p1 = (K.spec(s, 'to_lsp::position', [x, cx], 'Option<Position>') for x in (s0, e0))
        K.ob('defined iff both ends are', s, K.is_(s, out.val, 'Some') == z3.And(K.is_(s, p0, 'Some'), K.is_(s, p1, 'Some')))
        for s2, pl in K.some(s, out.val):
            if pl:
                K.ob('start', s2, K.eq(s2, K.fld(s2, pl[0], 'start', of='lsp_types::Range'), K.payload(s2, p0, 'Some')))
                K.ob('end', s2, K.eq(s2, K.fld(s2, pl[0], 'end', of='lsp_types::Range'), K.payload(s2, p1, 'Some')))

@contract(FR)
def from_range(K):
    """text_range(r) is exactly [offset(start), offset(end)), defined iff both ends are and are ordered; never panics"""
    K.opaque('from_lsp::offset')
    st = State()
    r, cx = a = K.args(FR, st)
    for out in K.run(FR, a, st):
        s = out.st
        p0, p1 = (K.spec(s, 'from_lsp::offset', [K.fld(s, r, f, of='lsp_types::Range'), cx], 'Option<TextSize>') for f in ('start', 'end'))
        v0, v1 = (K.t(s, K.payload(s, p, 'Some')) for p in (p0, p1))
        K.ob('defined iff both ends are, in order', s, K.is_(s, out.val, 'Some') == z3.And(K.is_(s, p0, 'Some'), K.is_(s, p1, 'Some'), v0 <= v1))
        for s2, pl in K.some(s, out.val):
            if pl:
                x, y = K.E.tr_parts(K.E, s2, K.deref(s2, pl[0]))
                K.ob('start', s2, x == v0)
                K.ob('end', s2, y == v1)

@contract('PositionTranslationContext::new')
def context_new(K):
    """a context is the line index of the given text with the given encoding"""
    K.opaque('LineIndex::new')
    st = State()
    text, enc = a = K.args('PositionTranslationContext::new', st)
    for o in K.run('PositionTranslationContext::new', a, st):
        K.ob('encoding', o.st, K.eq(o.st, K.fld(o.st, o.val, 'encoding'), enc))
        K.ob('line index of the text', o.st, K.eq(o.st, K.fld(o.st, o.val, 'line_index'), K.spec(o.st, 'LineIndex::new', [text], 'LineIndex')))
