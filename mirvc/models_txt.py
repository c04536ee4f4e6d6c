"""Texts: joining displayed elements, decimal numbers, big-endian bytes, digests."""
import z3
from vc import VAdt, VRef, VSeq, VIter, VSymIter, Outcome, ToolLimit, is_term
MAXV = {'u8': 2**8 - 1, 'u16': 2**16 - 1, 'u32': 2**32 - 1, 'u64': 2**64 - 1, 'u128': 2**128 - 1, 'usize': 2**64 - 1}

def register(E):
    from models import deref, mk, generics
    from vc import zstr
    from mir import def_key
    M, T = E.models, E.trait_models
    ids = iter(range(1, 1 << 60))

    def tmodel(*names):
        def deco(f):
            for n in names:
                T[n] = f
            return f
        return deco
    def model(*names):
        def deco(f):
            for n in names:
                M[n] = f
            return f
        return deco

    def shown(st, v):
        """Display text of a value"""
        v = deref(E, st, v)
        if is_term(v) and v.sort() == z3.StringSort():
            yield st, v
            return
        ty = v.ty if isinstance(v, VAdt) else v.sort().name() if is_term(v) else None
        if ty is None:
            raise ToolLimit('display of ' + type(v).__name__)
        for o in E.fmt_value(E, st, v, ty):
            if o.panic:
                raise ToolLimit('panic in Display')
            yield o.st, o.val

    @tmodel('<_ as Itertools>::unique_by', '<_ as Itertools>::unique')
    def it_unique(E, st, func, args, dty):
        v = deref(E, st, args[0])
        if isinstance(v, VSymIter):
            yield Outcome(st, VSymIter(v.src, v.ety, v.stages + (('unique', args[1] if len(args) > 1 else None),), v.started))
            return
        E.externs['::'.join(map(str, def_key(func)))] = 1
        yield Outcome(st, E.symval(st, E.nty(dty), 'ext:unique', [E.term(st, v)]))

    @tmodel('<_ as Itertools>::join')
    def it_join(E, st, func, args, dty):
        v = E.as_iter(E, st, deref(E, st, args[0]))
        sep = E.term(st, deref(E, st, args[1]))
        if isinstance(v, VIter):
            acc = [(st, [])]
            for x in v.items:
                acc = [(s2, ts + [t]) for s, ts in acc for s2, t in shown(s, x)]
            for s, ts in acc:
                r = zstr('')
                for i, t in enumerate(ts):
                    r = t if i == 0 else z3.Concat(r, sep, t)
                yield Outcome(s, r)
            return
        if isinstance(v, VSymIter):
            # a text determined by the elements, recorded for contracts that speak about the joined sequence
            t = z3.String(f'joined!{next(ids)}')
            st.ghost['joins'] = list(st.ghost.get('joins', [])) + [(t, v, sep)]
            yield Outcome(st, t)
            return
        E.externs['::'.join(map(str, def_key(func)))] = 1
        yield Outcome(st, E.uf('ext:join', [E.term(st, deref(E, st, args[0])), sep], z3.StringSort()))

    @model('core::str::parse', 'str::parse')
    def parse_int(E, st, func, args, dty):
        g = generics(func)
        ty = g[0] if g else None
        if ty is not None and ty not in MAXV and len(ty) == 1 and E.gen_stack and E.gen_stack[-1]:
            ty = E.gen_stack[-1].strip('<>')   # the type parameter of the function this is called in
        if ty not in MAXV:
            return NotImplemented
        return list(parse_to(st, ty, args, dty))

    def parse_to(st, ty, args, dty):
        t = E.term(st, deref(E, st, args[0]))
        v = z3.StrToInt(t)
        ok = z3.And(v >= 0, v <= MAXV[ty])
        a = E.branch(st, ok)
        if a is not None:
            yield Outcome(a, mk(E, dty, 'Ok', v))
        b = E.branch(st, z3.Not(ok))
        if b is not None:
            # not a plain decimal number in range; a leading `+` is left unspecified
            c = b.fork()
            c.assume(z3.PrefixOf(zstr('+'), t))
            if E.feasible(c):
                yield Outcome(c, mk(E, dty, 'Ok', z3.Int(f'plus!{next(ids)}')))
            yield Outcome(b, mk(E, dty, 'Err', E.symval(b, ('adt', 'ParseIntError', ()), f'parse_err!{next(ids)}')))

    @model('core::num::to_be_bytes', 'core::num::to_le_bytes')
    def to_bytes(E, st, func, args, dty):
        v = E.term(st, deref(E, st, args[0]))
        import re
        n = int(re.search(r'<impl [ui](\d+)>', func).group(1)) // 8
        bs = [(v / z3.IntVal(256 ** (n - 1 - i))) % 256 for i in range(n)]
        if def_key(func)[-1] == 'to_le_bytes':
            bs.reverse()
        yield Outcome(st, VSeq(bs, 'u8'))

    @model('core::num::from_be_bytes', 'core::num::from_le_bytes')
    def from_bytes(E, st, func, args, dty):
        v = deref(E, st, args[0])
        if not isinstance(v, VSeq):
            raise ToolLimit('from bytes')
        bs = list(v.items)
        if def_key(func)[-1] == 'from_le_bytes':
            bs.reverse()
        r = z3.IntVal(0)
        for b in bs:
            r = r * 256 + E.term(st, b)
        yield Outcome(st, r)

    @model('String::into_bytes')
    def into_bytes(E, st, func, args, dty):
        yield Outcome(st, deref(E, st, args[0]))

    # digests: an uninterpreted function of the data fed in, in order; 32 bytes long (checked for the 256-bit variant)
    @tmodel('<_ as Digest>::new')
    def digest_new(E, st, func, args, dty):
        import hashlib
        alg = 'blake2b256' if 'Blake2bVarCore' in func and func.count('UInt<') and digest_bits(func) == 32 else 'digest:' + hashlib.md5(func.encode()).hexdigest()
        yield Outcome(st, VAdt('Digest', None, {0: zstr(alg), 1: zstr('')}))

    def digest_bits(func):
        import re
        i = func.find('Blake2bVarCore,')
        first = re.search(r'(?:[\w:]*UInt<)+[\w:]*UTerm((?:, [\w:]*B[01]>)+)', func[i:])
        if not first:
            return None
        n = 0
        for b in re.findall(r'B([01])', first.group(1)):
            n = n * 2 + int(b)
        return n

    @tmodel('<_ as Digest>::update')
    def digest_update(E, st, func, args, dty):
        d = deref(E, st, args[0])
        data = E.term(st, deref(E, st, args[1]))
        if not isinstance(d, VAdt) or data.sort() != z3.StringSort():
            raise ToolLimit('digest data')
        E.write_ref(st, args[0], (), VAdt('Digest', None, {0: d.fields[0], 1: z3.Concat(d.fields[1], data)}))
        from vc import UNIT
        yield Outcome(st, UNIT)

    @tmodel('<_ as Digest>::finalize')
    def digest_finalize(E, st, func, args, dty):
        d = deref(E, st, args[0])
        t = E.uf('digest', [d.fields[0], d.fields[1]], E.sort(E.nty_from_name('Vec<u8>')))
        st.assume(z3.Implies(d.fields[0] == zstr('blake2b256'), E.seq_len(st, t) == 32))
        yield Outcome(st, t)

    @model('NodeOrToken::into_token', 'NodeOrToken::as_token', 'NodeOrToken::into_node', 'NodeOrToken::as_node')
    def node_or_token(E, st, func, args, dty):
        v = deref(E, st, args[0])
        vn = 'Token' if def_key(func)[-1].endswith('token') else 'Node'
        c = E.discr(st, v) == E.defs.variant_index('NodeOrToken', vn)
        a = E.branch(st, c)
        if a is not None:
            yield Outcome(a, mk(E, dty, 'Some', E.payload(a, v, vn)))
        b = E.branch(st, z3.Not(c))
        if b is not None:
            yield Outcome(b, mk(E, dty, 'None'))
