"""Regular expressions, lazily initialised statics and whitespace trimming over UTF-8 byte strings.
A regular expression is translated from its source text to the z3 regular language of the byte strings it matches somewhere."""
import re, z3
try:
    import re._parser as sre
    import re._constants as sc
except ImportError:
    import sre_parse as sre
    import sre_constants as sc
from vc import VAdt, VRef, Outcome, ToolLimit, is_term, zstr

SS = z3.ReSort(z3.StringSort())
ANYB = z3.Range(chr(0), '\\u{ff}')
WS_CHARS = [0x20] + list(range(9, 14)) + [0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]

def lit(s):
    return z3.Re(zstr(s))

def alt(xs):
    xs = list(xs)
    if not xs:
        return z3.Empty(SS)
    return xs[0] if len(xs) == 1 else z3.Union(*xs)

def seq(xs):
    xs = list(xs)
    if not xs:
        return lit('')
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)

WS = alt([z3.Range('\\u{9}', '\\u{d}'), lit(' ')] + [lit(chr(c)) for c in WS_CHARS if c > 0x7f])
ALL = z3.Full(SS)
def byte_range(a, b):
    return z3.Range('\\u{%x}' % a, '\\u{%x}' % b)
# one UTF-8 encoded character
UTF8 = alt([byte_range(0, 0x7f), seq([byte_range(0xc2, 0xdf), byte_range(0x80, 0xbf)]),
            seq([byte_range(0xe0, 0xef), byte_range(0x80, 0xbf), byte_range(0x80, 0xbf)]),
            seq([byte_range(0xf0, 0xf4), byte_range(0x80, 0xbf), byte_range(0x80, 0xbf), byte_range(0x80, 0xbf)])])

def chars_except(ws, codes):
    """any character that is not one of `codes` (and not whitespace if ws)"""
    bad = [lit(chr(c)) for c in codes] + ([WS] if ws else [])
    return z3.Intersect(UTF8, z3.Complement(alt(bad))) if bad else UTF8

class Unsup(Exception):
    pass

def one(op, av):
    if op == sc.LITERAL:
        return lit(chr(av))
    if op == sc.NOT_LITERAL:
        return chars_except(False, [av])
    if op == sc.ANY:
        return chars_except(False, [10])
    if op == sc.IN:
        neg = av and av[0][0] == sc.NEGATE
        items = av[1:] if neg else av
        pos, codes, ws = [], [], False
        for o, a in items:
            if o == sc.LITERAL:
                pos.append(lit(chr(a)))
                codes.append(a)
            elif o == sc.RANGE:
                if a[1] > 0x7f:
                    raise Unsup('non-ASCII range')
                pos.append(byte_range(a[0], a[1]))
                codes += list(range(a[0], a[1] + 1))
            elif o == sc.CATEGORY and a == sc.CATEGORY_SPACE:
                pos.append(WS)
                ws = True
            elif o == sc.CATEGORY and a == sc.CATEGORY_NOT_SPACE and neg and len(items) > 1:
                # [^\S\n]: whitespace except the listed characters
                rest = [x for x in items if x != (o, a)]
                if not all(x[0] == sc.LITERAL for x in rest):
                    raise Unsup('class')
                return z3.Intersect(WS, z3.Complement(alt(lit(chr(x[1])) for x in rest)))
            elif o == sc.CATEGORY and a == sc.CATEGORY_DIGIT:
                pos.append(byte_range(48, 57))   # ASCII digits only (stated)
                codes += list(range(48, 58))
            else:
                raise Unsup('class')
        return chars_except(ws, codes) if neg else alt(pos)
    return None

def has_anchor(p):
    for op, av in p:
        if op == sc.AT:
            return True
        if op == sc.BRANCH and any(has_anchor(x) for x in av[1]):
            return True
        if op == sc.SUBPATTERN and has_anchor(av[3]):
            return True
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and has_anchor(av[2]):
            return True
    return False

def plain(p):
    out = []
    for op, av in p:
        r = one(op, av)
        if r is None:
            if op == sc.BRANCH:
                r = alt(plain(x) for x in av[1])
            elif op == sc.SUBPATTERN:
                r = plain(av[3])
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, q = av
                b = plain(q)
                if hi == sc.MAXREPEAT:
                    r = z3.Star(b) if lo == 0 else z3.Plus(b) if lo == 1 else z3.Concat(*([b] * lo + [z3.Star(b)]))
                elif (lo, hi) == (0, 1):
                    r = z3.Option(b)
                else:
                    r = z3.Loop(b, lo, hi)
            else:
                raise Unsup(str(op))
        out.append(r)
    return seq(out)

def expand(p):
    """[(starts at the beginning, language, ends at the end)] alternatives of a pattern with anchors only at its outer ends"""
    p = list(p)
    alts = [(False, [], False)]
    for i, (op, av) in enumerate(p):
        if op == sc.AT:
            here = [(True, lit(''), False)] if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) else [(False, lit(''), True)] if av in (sc.AT_END, sc.AT_END_STRING) else None
            if here is None:
                raise Unsup('anchor')
        elif op == sc.SUBPATTERN and has_anchor(av[3]):
            here = expand(av[3])
        elif op == sc.BRANCH and any(has_anchor(x) for x in av[1]):
            here = [h for x in av[1] for h in expand(x)]
        else:
            here = [(False, plain([(op, av)]), False)]
        nxt = []
        for a, rs, z in alts:
            for b, r, y in here:
                if (b and rs) or z:
                    raise Unsup('inner anchor')
                nxt.append((a or b, rs + ([r] if not (b and r.eq(lit(''))) else []), y))
        alts = nxt
    return [(a, seq(rs), z) for a, rs, z in alts]

def language(src):
    """the byte strings in which the pattern matches somewhere"""
    try:
        tree = sre.parse(src)
        return alt(seq(([] if a else [ALL]) + [r] + ([] if z else [ALL])) for a, r, z in expand(tree))
    except (Unsup, re.error) as e:
        raise ToolLimit(f'regular expression {src!r}: {e}')

def register(E):
    from models import deref, mk, zpy
    M = E.models

    def model(*names):
        def deco(f):
            for n in names:
                M[n] = f
            return f
        return deco

    @model('Regex::new')
    def regex_new(E, st, func, args, dty):
        s = deref(E, st, args[0])
        if not z3.is_string_value(s):
            raise ToolLimit('regular expression that is not a constant')
        language(zpy(s))   # literals of the repository are valid patterns for the regex crate iff they build here; an invalid one panics at first use
        yield Outcome(st, mk(E, dty, 'Ok', VAdt('Regex', None, {0: s})))

    @model('Regex::is_match')
    def regex_is_match(E, st, func, args, dty):
        r = deref(E, st, args[0])
        s = deref(E, st, args[1])
        if not (isinstance(r, VAdt) and r.ty == 'Regex'):
            raise ToolLimit('unknown regular expression')
        yield Outcome(st, z3.InRe(s, language(zpy(r.fields[0]))))

    @model('Lazy::force', 'LazyLock::force')
    def force(E, st, func, args, dty):
        yield Outcome(st, args[0])

    def trimmed(st, s, start, end, full=False):
        t = E.uf('trim_%d%d' % (start, end), [s], z3.StringSort())
        E.trims[t.get_id()] = (t, s, start, end)
        if not full:
            return t
        a = E.uf('trim_pre_%d%d' % (start, end), [s], z3.StringSort()) if start else z3.StringVal('')
        b = E.uf('trim_post_%d%d' % (start, end), [s], z3.StringSort()) if end else z3.StringVal('')
        st.assume(s == z3.Concat(a, t, b))
        if start:
            st.assume(z3.InRe(a, z3.Star(WS)))
            st.assume(z3.Not(z3.InRe(t, z3.Concat(WS, ALL))))
        if end:
            st.assume(z3.InRe(b, z3.Star(WS)))
            st.assume(z3.Not(z3.InRe(t, z3.Concat(ALL, WS))))
        return t
    E.trimmed = trimmed
    E.trims = {}
    def affix(s, p, m):
        """starts_with/ends_with of a trimmed text, as a language of the text"""
        if s.get_id() not in E.trims or not z3.is_string_value(p):
            return None
        q = zpy(p)
        _, src, start, end = E.trims[s.get_id()]
        if not q or not q.isascii() or q != q.strip():
            return None
        if m == 'starts_with' and start:
            return z3.InRe(src, z3.Concat(z3.Star(WS), z3.Re(p), ALL))
        if m == 'ends_with' and end:
            return z3.InRe(src, z3.Concat(ALL, z3.Re(p), z3.Star(WS)))
        return None
    E.affix = affix

    @model('str::trim', 'str::trim_start', 'str::trim_end')
    def trim(E, st, func, args, dty):
        s = deref(E, st, args[0])
        m = func.split('::')[-1].split('(')[0]
        if z3.is_string_value(s):
            p = zpy(s)
            if p.isascii():
                yield Outcome(st, zstr({'trim': p.strip, 'trim_start': p.lstrip, 'trim_end': p.rstrip}[m]()))
                return
        yield Outcome(st, trimmed(st, s, m != 'trim_end', m != 'trim_start'))
