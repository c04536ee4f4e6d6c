"""Ordering: comparisons of integers, least elements and stable sorting by the real `Ord` implementations."""
import z3
from vc import VAdt, VRef, VClosure, VSeq, VIter, VSymIter, VColl, Outcome, ToolLimit, is_term
LESS, EQUAL, GREATER = -1, 0, 1

def register(E):
    from models import deref, mk
    from mir import def_key
    M, T = E.models, E.trait_models
    ids = iter(range(1, 1 << 60))

    def tmodel(*names):
        def deco(f):
            for n in names:
                T[n] = f
            return f
        return deco
    def model(*names):
        def deco(f):
            for n in names:
                M[n] = f
            return f
        return deco

    def tri(a, b):
        return z3.If(a < b, z3.IntVal(LESS), z3.If(a == b, z3.IntVal(EQUAL), z3.IntVal(GREATER)))

    INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'char', 'TextSize']
    @tmodel(*[f'<{t} as Ord>::cmp' for t in INTS])
    def int_cmp(E, st, func, args, dty):
        a, b = (E.term(st, deref(E, st, x)) for x in args[:2])
        yield Outcome(st, tri(a, b))

    @model('Ordering::reverse')
    def reverse(E, st, func, args, dty):
        yield Outcome(st, -deref(E, st, args[0]))

    @model('Ordering::then')
    def then(E, st, func, args, dty):
        a, b = deref(E, st, args[0]), deref(E, st, args[1])
        yield Outcome(st, z3.If(a == 0, b, a))

    @model('Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne')
    def ord_is(E, st, func, args, dty):
        a = deref(E, st, args[0])
        yield Outcome(st, {'is_lt': a < 0, 'is_le': a <= 0, 'is_gt': a > 0, 'is_ge': a >= 0, 'is_eq': a == 0, 'is_ne': a != 0}[def_key(func)[-1]])

    def formula(st, run, pick):
        """run: state -> outcomes; the condition (over st's variables) under which pick(outcome) holds"""
        s0 = st.fork()
        n = len(s0.pc)
        d = []
        for o in run(s0):
            if o.panic:
                raise ToolLimit('panic inside a comparison')
            d.append(z3.And(*o.st.pc[n:], pick(o)))
        return z3.Or(d) if d else z3.BoolVal(False)

    def less_fn(how, f, ety):
        """(st, x, y) -> condition that x is before y under the comparison"""
        def less(st, x, y):
            if how == 'ord':
                return formula(st, lambda s: E.call(s, f'<{ety} as Ord>::cmp', [x, y], 'std::cmp::Ordering'), lambda o: E.term(o.st, o.val) == LESS)
            if how == 'by':
                return formula(st, lambda s: E.call_value(s, f, [x, y], 'std::cmp::Ordering'), lambda o: E.term(o.st, o.val) == LESS)
            out = []
            s0 = st.fork()
            n = len(s0.pc)
            g = E.read_ref(s0, f) if isinstance(f, VRef) else f
            kt = E.nty(E.find_closure(g.cid)[1].retty if isinstance(g, VClosure) else E.fn_ret_ty(g.path))
            if not (kt[0] == 'prim' or kt[0] == 'adt' and kt[1] == 'TextSize'):
                if kt[0] != 'adt':
                    raise ToolLimit('sort key of type ' + str(kt))
                def via_ord(s):
                    for o in E.call_value(s, f, [x], None):
                        for o2 in E.call_value(o.st.fork(), f, [y], None):
                            if o.panic or o2.panic:
                                raise ToolLimit('panic inside a key function')
                            yield from E.call(o2.st, f'<{E.tname(kt)} as Ord>::cmp', [o.val, o2.val], 'std::cmp::Ordering')
                return formula(st, via_ord, lambda o: E.term(o.st, o.val) == LESS)
            for o in E.call_value(s0, f, [x], None):
                for o2 in E.call_value(o.st.fork(), f, [y], None):
                    if o.panic or o2.panic:
                        raise ToolLimit('panic inside a key function')
                    a, b = E.term(o2.st, o.val), E.term(o2.st, o2.val)
                    if a.sort() != z3.IntSort():
                        if a.sort() == z3.BoolSort():
                            c = z3.And(z3.Not(a), b)
                        else:
                            raise ToolLimit('key of sort ' + a.sort().name())
                    else:
                        c = a < b
                    out.append(z3.And(*o2.st.pc[n:], c))
            return z3.Or(out) if out else z3.BoolVal(False)
        return less

    def keep_fn(v):
        """(st, x) -> condition that x passes the filters"""
        def keep(st, x):
            c = []
            for _, f in v.stages:
                c.append(formula(st, lambda s: E.call_value(s, f, [x], 'bool'), lambda o: o.val if is_term(o.val) else z3.BoolVal(o.val)))
            return z3.And(c) if c else z3.BoolVal(True)
        return keep

    def least_kept(st, v, less):
        """the first least element among those that pass the filters; None if none does"""
        n = E.seq_len(st, v.src)
        k = next(ids)
        w, j = z3.Int(f'least!{k}'), z3.Int(f'j!least{k}')
        keep = keep_fn(v)
        s1 = st.fork()
        xj = E.symval(s1, v.ety, 'at', [v.src, j])
        rng = s1.pc[len(st.pc):]
        inside = z3.And(j >= 0, j < n, *rng)
        e = E.branch(st, z3.ForAll([j], z3.Implies(inside, z3.Not(keep(st, xj)))))
        if e is not None:
            yield e, None
        s = st.fork()
        s.assume(z3.And(w >= 0, w < n))
        xw = E.symval(s, v.ety, 'at', [v.src, w])
        s.assume(keep(s, xw))
        if not E.feasible(s):
            return
        s.assume(z3.ForAll([j], z3.Implies(z3.And(inside, keep(s, xj)), z3.Not(less(s, xj, xw)))))
        s.assume(z3.ForAll([j], z3.Implies(z3.And(inside, j < w, keep(s, xj)), less(s, xw, xj))))
        s.ghost['idx'] = w
        yield s, xw

    def least(st, v, less, last):
        """states with the index of the first (last) least element of the plain symbolic sequence; None for an empty one"""
        if v.stages:
            yield from least_kept(st, v, less)
            return
        n = E.seq_len(st, v.src)
        lo = max(v.started, 0)
        e = E.branch(st, n <= lo)
        if e is not None:
            yield e, None
        s = E.branch(st, n > lo)
        if s is None:
            return
        k = next(ids)
        w = z3.Int(f'least!{k}')
        j = z3.Int(f'j!least{k}')
        s.assume(z3.And(w >= lo, w < n))
        xw = E.symval(s, v.ety, 'at', [v.src, w])
        s1 = s.fork()
        xj = E.symval(s1, v.ety, 'at', [v.src, j])
        rng = s1.pc[len(s.pc):]
        s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < n, *rng), z3.Not(less(s, xj, xw)))))
        side = (j > w) if last else (j < w)
        s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < n, side, *rng), less(s, xw, xj))))
        s.ghost['idx'] = w
        yield s, xw

    def kind(m):
        return 'key' if m.endswith('_by_key') else 'by' if m.endswith('_by') else 'ord'

    @tmodel('<_ as Iterator>::min', '<_ as Iterator>::min_by', '<_ as Iterator>::min_by_key')
    def it_min(E, st, func, args, dty):
        m = def_key(func)[-1]
        v = E.as_iter(E, st, args[0])
        if isinstance(v, VSymIter) and not v.stages and v.started >= 0:
            for s, x in least(st, v, less_fn(kind(m), args[1] if len(args) > 1 else None, v.ety), False):
                yield Outcome(s, mk(E, dty, 'None') if x is None else mk(E, dty, 'Some', x))
            return
        raise ToolLimit(m + ' on ' + type(v).__name__)

    def plain(st, v):
        """known items followed by a sequence, as one sequence"""
        if not (isinstance(v, VSymIter) and len(v.stages) == 1 and v.stages[0][0] == 'chain' and v.started == 0 and v.pos is None):
            return v
        w = v.stages[0][1]
        w = deref(E, st, w)
        if not (isinstance(w, VSymIter) and not w.stages and w.started == 0 and w.pos is None):
            return v
        c = E.uf('concat', [v.src, w.src], v.src.sort())
        n, m = E.seq_len(st, v.src), E.seq_len(st, w.src)
        st.assume(E.seq_len(st, c) == n + m)
        j = z3.Int(f'j!cat{next(ids)}')
        at = lambda q, i: E.uf('at', [q, i], E.sort(E.nty_from_name(v.ety) if isinstance(v.ety, str) else v.ety))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), at(c, j) == at(v.src, j))))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= n, j < n + m), at(c, j) == at(w.src, j - n)), patterns=[at(c, j)]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), at(c, j + n) == at(w.src, j)), patterns=[at(w.src, j)]))
        return VSymIter(c, v.ety)

    def sort_all(st, v, less):
        """a stable sort of a whole sequence: the same elements, in order, equally ranked ones as before"""
        k = next(ids)
        n = E.seq_len(st, v.src)
        ety = v.ety
        t = E.uf(f'sorted!{k}', [v.src], v.src.sort())
        st.assume(E.seq_len(st, t) == n)
        pi, inv = (z3.Function(f'{x}!sort{k}', z3.IntSort(), z3.IntSort()) for x in ('from', 'to'))
        i, j = z3.Ints(f'i!sort{k} j!sort{k}')
        s1 = st.fork()
        xi, xj = (E.symval(s1, ety, 'at', [t, q]) for q in (i, j))
        ti, tj = E.term(s1, xi), E.term(s1, xj)
        si = E.term(s1, E.symval(s1, ety, 'at', [v.src, i]))
        rng = s1.pc[len(st.pc):]
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(pi(i) >= 0, pi(i) < n, inv(pi(i)) == i, ti == E.term(s1, E.symval(s1, ety, 'at', [v.src, pi(i)])))), patterns=[ti]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(inv(i) >= 0, inv(i) < n, pi(inv(i)) == i, si == E.term(s1, E.symval(s1, ety, 'at', [t, inv(i)])))), patterns=[si]))
        both = z3.And(i >= 0, i < j, j < n, *rng)
        st.assume(z3.ForAll([i, j], z3.Implies(both, z3.Not(less(s1, xj, xi))), patterns=[z3.MultiPattern(ti, tj)]))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(both, z3.Not(less(s1, xi, xj))), pi(i) < pi(j)), patterns=[z3.MultiPattern(ti, tj)]))
        return VSymIter(t, ety)

    @tmodel('<_ as Itertools>::sorted', '<_ as Itertools>::sorted_by', '<_ as Itertools>::sorted_by_key')
    def it_sorted(E, st, func, args, dty):
        m = def_key(func)[-1]
        v = E.as_iter(E, st, args[0])
        if isinstance(v, VIter) and len(v.items) <= 1:
            yield Outcome(st, v)
            return
        v = plain(st, v)
        if isinstance(v, VSymIter) and v.started == 0 and v.pos is None and not v.stages and E.full_sort:
            yield Outcome(st, sort_all(st, v, less_fn(kind(m), args[1] if len(args) > 1 else None, v.ety)))
            return
        if isinstance(v, VSymIter) and v.started == 0 and v.pos is None and all(k == 'filter' for k, _ in v.stages):
            for s, x in least(st, v, less_fn(kind(m), args[1] if len(args) > 1 else None, v.ety), False):
                if x is None:
                    yield Outcome(s, VIter([]))
                    continue
                # a stable sort: same elements, the first least one in front (the rest is left unspecified)
                t = E.uf('sorted!%d' % next(ids), [v.src], E.sort(E.nty_from_name(f'Vec<{v.ety}>')))
                s.assume(E.seq_len(s, t) >= 1 if v.stages else E.seq_len(s, t) == E.seq_len(s, v.src))
                s.assume(E.term(s, E.symval(s, v.ety, 'at', [t, z3.IntVal(0)])) == E.term(s, x))
                yield Outcome(s, VSymIter(t, v.ety))
            return
        if isinstance(v, VSymIter) or v is None or not isinstance(v, VIter):
            # order unknown: the same elements
            w = v if v is not None else deref(E, st, args[0])
            from vc import VOpqIter
            E.externs['::'.join(map(str, def_key(func)))] = 1
            yield Outcome(st, VSymIter(w.src, w.ety, w.stages + (('rev', None),), w.started) if isinstance(w, VSymIter) else VOpqIter(E.term(st, w)))
            return
        raise ToolLimit(m + ' on ' + type(v).__name__)
