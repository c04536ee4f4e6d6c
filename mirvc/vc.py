"""mirvc: a contract checker over rustc MIR.

Symbolic execution of the MIR of a function under contract, for arbitrary (symbolic) arguments.
 - calls to functions of the same crate without a contract of their own are inlined from their MIR;
 - calls to functions with a contract use the contract;
 - calls to library functions use the models in models.py (assumed contracts, listed in evidence);
 - any other external call is an uninterpreted pure function of its arguments (listed in evidence).
Every path to `return` yields the postcondition obligations, every path to a panic yields a
panic-freedom obligation.  Obligations are discharged by z3."""
import re, time, itertools
import z3
import mir, models_toml
from mir import parse_ty, def_key, short, split_top, find_top, match_close

class ToolLimit(Exception):
    """The code uses something the generator cannot translate: undecided, not a violation."""

# ---------------------------------------------------------------- values
class VAdt:
    __slots__ = ('ty', 'variant', 'fields', 'base')
    def __init__(self, ty, variant, fields, base=None):
        self.ty, self.variant, self.fields, self.base = ty, variant, dict(fields), base
    def __repr__(self):
        return f'{self.ty}::{self.variant}{self.fields}' if self.variant else f'{self.ty}{self.fields}'

class VRef:
    __slots__ = ('cell', 'projs')
    def __init__(self, cell, projs=()):
        self.cell, self.projs = cell, tuple(projs)
    def __repr__(self):
        return f'&mut c{self.cell}{self.projs}'

class VBox:
    __slots__ = ('cell',)
    def __init__(self, cell):
        self.cell = cell

class VClosure:
    __slots__ = ('cid', 'caps')
    def __init__(self, cid, caps):
        self.cid, self.caps = cid, caps
    def __repr__(self):
        return f'closure {self.cid}'

class VFn:
    __slots__ = ('path',)
    def __init__(self, path):
        self.path = path
    def __repr__(self):
        return f'fn {self.path}'

class VSeq:
    """Sequence with a concrete number of elements."""
    __slots__ = ('items', 'ety')
    def __init__(self, items, ety=None):
        self.items, self.ety = list(items), ety
    def __repr__(self):
        return f'seq{self.items}'

class VIter:
    """Iterator over a concrete number of pending items."""
    __slots__ = ('items',)
    def __init__(self, items):
        self.items = list(items)

class VSymIter:
    """Iterator over a symbolic sequence term with pending adaptor stages; started: items already taken (-1: unknown)."""
    __slots__ = ('src', 'ety', 'stages', 'started', 'pos')
    def __init__(self, src, ety, stages=(), started=0, pos=None):
        self.src, self.ety, self.stages, self.started, self.pos = src, ety, tuple(stages), started, pos

class VSetIter:
    """Iterator over the entries of a map/set, in unspecified order (kind: kv, k, v)."""
    __slots__ = ('map', 'kind', 'stages')
    def __init__(self, map, kind, stages=()):
        self.map, self.kind, self.stages = map, kind, tuple(stages)

class VOpqIter:
    """An iterator of an external type: yields arbitrary items (over-approximation)."""
    __slots__ = ('t', 'stages')
    def __init__(self, t, stages=()):
        self.t, self.stages = t, tuple(stages)

class VColl:
    """The collection produced by draining a symbolic iterator; its elements are described by the iterator."""
    __slots__ = ('it', 'ty')
    def __init__(self, it, ty):
        self.it, self.ty = it, ty

class VMap:
    """HashMap: symbolic base (term or None for empty) plus updates, newest last."""
    __slots__ = ('base', 'kty', 'vty', 'ups')
    def __init__(self, base, kty, vty, ups=()):
        ups = tuple(ups)
        if len(ups) > 1 and is_term(ups[-1][0]):
            # an older update of the same key is overwritten
            k = ups[-1][0]
            ups = tuple(u for u in ups[:-1] if not (is_term(u[0]) and u[0].eq(k))) + ups[-1:]
        self.base, self.kty, self.vty, self.ups = base, kty, vty, ups

class VUninit:
    def __repr__(self):
        return 'uninit'
UNINIT = VUninit()
UNIT = VAdt('()', None, {})

def is_term(v):
    return isinstance(v, z3.ExprRef)

# ---------------------------------------------------------------- state
_cell = itertools.count(1)

class State:
    __slots__ = ('cells', 'pc', 'ghost', 'axioms')
    def __init__(self):
        self.cells, self.pc, self.ghost = {}, [], {}
    def fork(self):
        s = State()
        s.cells, s.pc = dict(self.cells), list(self.pc)
        s.ghost = {k: (list(v) if isinstance(v, list) else v) for k, v in self.ghost.items()}
        return s
    def assume(self, c):
        if c is True:
            return self
        if z3.is_true(c):
            return self
        self.pc.append(c)
        return self
    def alloc(self, v):
        c = next(_cell)
        self.cells[c] = v
        return c

class Outcome:
    __slots__ = ('st', 'val', 'panic')
    def __init__(self, st, val, panic=None):
        self.st, self.val, self.panic = st, val, panic

INT_RANGES = {}
for b in (8, 16, 32, 64, 128):
    INT_RANGES[f'u{b}'] = (0, (1 << b) - 1)
    INT_RANGES[f'i{b}'] = (-(1 << (b - 1)), (1 << (b - 1)) - 1)
INT_RANGES['usize'] = INT_RANGES['u64']
INT_RANGES['isize'] = INT_RANGES['i64']

TRANSPARENT = {'Box', 'Rc', 'Arc', 'ManuallyDrop', 'Pin'}
STRINGY = {'String', 'SmolStr', 'Url', 'TokenText'}
STRINGY = {'String', 'SmolStr', 'TokenText'}

def zstr(s):
    """A Rust string constant as the z3 string of its UTF-8 bytes."""
    out = []
    for b in s.encode('utf-8'):
        if 32 <= b < 127 and b not in (92,):
            out.append(chr(b))
        else:
            out.append('\\u{%x}' % b)
    return z3.StringVal(''.join(out))

class Engine:
    def __init__(self, crates, defs, opts=None):
        self.crates = crates          # list of mir.Crate; first one is the primary
        self.defs = defs
        self.sorts = {}
        self.funcs = {}
        self.inc, self.inc_stack = None, []
        self.quant_cache, self.quant_keep = {}, []
        self.models = {}
        self.trait_models = {}
        self.contracts = {}
        self.pre_panics = []
        self.any_hook = None
        self.coll_facts = False        # say what the length of a filtered collection means
        self.externs = {}             # uninterpreted external functions used -> count
        self.used_models = set()
        self.inlined = set()
        self.const_cache = {}
        self.bound, self.qax, self.facts = [], [], {}
        self.stats = {'paths': 0, 'queries': 0, 'solver_s': 0.0}
        self.depth = 0
        self.max_depth = 24
        self.max_visits = 40
        self.max_paths = 20000
        self.plain_display = set()   # types whose text is taken as an unknown function of the value
        self.full_sort = False       # keep what a sort says about all elements, not only the first
        self.any_types = set()       # types whose values stay opaque (any value) when made by an extern
        self.crate_stack = [crates[0]]
        self.last_seg = {}
        for cr in crates:
            for k, b in cr.bodies.items():
                if b.header.startswith('fn '):
                    dk = def_key(k)
                    self.last_seg.setdefault(dk[-1] if isinstance(dk[-1], str) else str(dk[-1]), []).append((cr, dk, k, b))
        self.gen_stack = []
        self.loop_invs = {}
        self.cut_fns = set()
        self.log_sort = 'Vec<Diagnostic>'
        self.log_new = False      # a new vector of that type starts the log
        self.iterations = {}
        self.no_inline = set()
        self.feas_cache = {}
        import models
        models.register(self)

    # ------------------------------------------------------------ types and sorts
    def norm(self, ty):
        """normal form of a parsed type: references and boxes collapse, short names."""
        k = ty[0]
        if k == 'mut':
            return ('mut', self.norm(ty[1]))
        if k == 'ref':
            if ty[1]:
                return ('mut', self.norm(ty[2]))
            return self.norm(ty[2])
        if k == 'prim':
            return ('prim', ty[1])
        if k == 'adt':
            n = short(ty[1])
            if n in TRANSPARENT and ty[2]:
                return self.norm(ty[2][0])
            if n in STRINGY:
                return ('prim', 'str')
            if not ty[2] and n in self.defs.aliases and n not in self.defs.structs and n not in self.defs.enums:
                return self.nty(self.defs.aliases[n])
            args = tuple(self.norm(a) for a in ty[2])
            if args and args[-1] == ('adt', 'RustLanguage', ()):
                args = args[:-1]   # rowan's types are only used at the rust language (aliases in ra_ap_syntax)
            if n == 'SyntaxElement' and not args:
                return ('adt', 'NodeOrToken', (('adt', 'SyntaxNode', ()), ('adt', 'SyntaxToken', ())))
            return ('adt', n, args)
        if k == 'tuple':
            return ('tuple', tuple(self.norm(a) for a in ty[1]))
        if k == 'slice':
            return ('adt', 'Vec', (self.norm(ty[1]),))
        if k == 'array':
            return ('adt', 'Vec', (self.norm(ty[1]),))
        if k == 'ptr':
            return self.norm(ty[1])
        return (k,) + tuple(ty[1:])

    def nty(self, s):
        if isinstance(s, tuple):
            return self.norm(s)
        return self.norm(parse_ty(s))

    def tname(self, n):
        k = n[0]
        if k == 'prim':
            return n[1]
        if k == 'adt':
            if not n[2]:
                return n[1]
            return n[1] + '<' + ','.join(self.tname(a) for a in n[2]) + '>'
        if k == 'tuple':
            return '(' + ','.join(self.tname(a) for a in n[1]) + ')'
        if k == 'mut':
            return '&mut ' + self.tname(n[1])
        return str(n[1])

    def is_clike(self, n):
        return n[0] == 'adt' and n[1] in self.defs.clike

    def sort(self, n):
        if n[0] == 'prim':
            if n[1] == 'bool':
                return z3.BoolSort()
            if n[1] == 'str':
                return z3.StringSort()
            if n[1] in INT_RANGES or n[1] == 'char':
                return z3.IntSort()
        if n[0] == 'adt' and n[1] in ('TextSize',):
            return z3.IntSort()
        if self.is_clike(n):
            return z3.IntSort()
        if n[0] == 'mut':
            return self.sort(n[1])
        name = self.tname(n)
        if name not in self.sorts:
            self.sorts[name] = z3.DeclareSort(name)
        return self.sorts[name]

    def uf(self, name, argterms, ressort):
        key = (name, tuple(t.sort().name() for t in argterms), ressort.name())
        f = self.funcs.get(key)
        if f is None:
            if argterms:
                f = z3.Function(name, *[t.sort() for t in argterms], ressort)
            else:
                f = z3.Const(name, ressort)
            self.funcs[key] = f
        return f(*argterms) if argterms else f

    def fact(self, st, f):
        """a type range, true of every value: assumed on the path; under a quantifier it never becomes part of the quantified formula"""
        st.assume(f)
        if self.bound:
            self.facts[f.get_id()] = f

    def range_axiom(self, st, n, t):
        if n[0] == 'prim' and n[1] in INT_RANGES:
            lo, hi = INT_RANGES[n[1]]
            self.fact(st, z3.And(t >= lo, t <= hi))
        elif n[0] == 'prim' and n[1] == 'char':
            self.fact(st, z3.And(t >= 0, t <= 0x10FFFF))
        elif n[0] == 'adt' and n[1] == 'TextSize':
            self.fact(st, z3.And(t >= 0, t <= (1 << 32) - 1))
        elif self.is_clike(n):
            if n[1] in self.defs.explicit:
                self.fact(st, z3.Or([t == v for v in self.defs.explicit[n[1]].values()]))
            else:
                self.fact(st, z3.And(t >= 0, t < len(self.defs.enums[n[1]])))

    def symval(self, st, ty, name, args=()):
        """Symbolic value of the given type named by an uninterpreted function application."""
        n = self.nty(ty)
        if n[0] == 'mut':
            inner = self.symval(st, n[1], name, args)
            return VRef(st.alloc(inner))
        if n[0] == 'tuple':
            if not n[1]:
                return UNIT
            return VAdt(self.tname(n), None, {i: self.symval(st, t, f'{name}.{i}', args) for i, t in enumerate(n[1])})
        t = self.uf(name, list(args), self.sort(n))
        self.range_axiom(st, n, t)
        return t

    def fresh(self, st, ty, hint):
        return self.symval(st, ty, f'{hint}!{next(_cell)}')

    # ------------------------------------------------------------ terms
    def ty_of_term(self, t):
        s = t.sort()
        if s == z3.BoolSort():
            return ('prim', 'bool')
        if s == z3.StringSort():
            return ('prim', 'str')
        if s == z3.IntSort():
            return ('prim', 'int')
        return ('term', s.name())

    def term(self, st, v):
        if is_term(v):
            return v
        if isinstance(v, VAdt):
            if v.base is not None and not v.fields:
                return v.base
            fts = {i: self.term(st, x) for i, x in sorted(v.fields.items())}
            srt = self._sort_named(v.ty)
            if v.base is None and not v.variant and fts:
                # all fields of one value: that value
                xs = [ft.arg(0) if ft.num_args() == 1 and ft.decl().name() == f'fld:{v.ty}:{v.variant}:{i}' else None for i, ft in fts.items()]
                sd = self.defs.structs.get(v.ty.split('<')[0])
                if xs[0] is not None and sd is not None and len(sd) == len(xs) and xs[0].sort() == srt and all(x is not None and x.eq(xs[0]) for x in xs):
                    return xs[0]
            if v.base is not None:
                t = self.uf(f'upd:{v.ty}:{v.variant}:{tuple(fts)}', [v.base] + list(fts.values()), srt)
            else:
                t = self.uf(f'mk:{v.ty}:{v.variant}', list(fts.values()), srt)
            for i, ft in fts.items():
                self.fact(st, self.uf(f'fld:{v.ty}:{v.variant}:{i}', [t], ft.sort()) == ft)
            en = v.ty.split('<')[0]
            if v.variant and en in self.defs.enums:
                self.fact(st, self.uf(f'discr:{v.ty}', [t], z3.IntSort()) == self.defs.variant_index(en, v.variant))
            return t
        if isinstance(v, VSeq):
            fts = [self.term(st, x) for x in v.items]
            ety = v.ety or (fts[0].sort().name() if fts else 'any')
            srt = self._sort_named(f'Vec<{ety}>')
            t = self.uf(f'seq{len(fts)}:{ety}', fts, srt)
            self.fact(st, self.uf('len', [t], z3.IntSort()) == len(fts))
            for i, ft in enumerate(fts):
                self.fact(st, self.uf('at', [t, z3.IntVal(i)], ft.sort()) == ft)
            return t
        if isinstance(v, VClosure):
            caps = [self.term(st, x) for x in v.caps]
            return self.uf('closure:' + v.cid, caps, self._sort_named('closure'))
        if isinstance(v, VFn):
            return self.uf('fn:' + '::'.join(map(str, def_key(v.path))), [], self._sort_named('closure'))
        if isinstance(v, VRef):
            return self.term(st, self.read_ref(st, v))
        if isinstance(v, VBox):
            return self.term(st, st.cells[v.cell])
        if isinstance(v, VMap):
            args = [] if v.base is None else [v.base]
            for (k, p, val) in v.ups:
                args += [self.term(st, k), z3.BoolVal(p)] + ([self.term(st, val)] if p else [])
            return self.uf('map:' + '.'.join('1' if p else '0' for _, p, _ in v.ups) + f':{v.base is None}', args, self._sort_named('HashMap'))
        if isinstance(v, VSymIter):
            args = [v.src]
            nm = 'iter'
            for (k, f) in v.stages:
                nm += ':' + k
                if f is not None:
                    args.append(self.term(st, f))
            return self.uf(nm, args, self._sort_named('iter'))
        if isinstance(v, VIter):
            return self.term(st, VSeq(v.items))
        if isinstance(v, (VSetIter, VOpqIter)):
            args = [self.term(st, v.map) if isinstance(v, VSetIter) else v.t]
            nm = 'setiter:' + (v.kind if isinstance(v, VSetIter) else 'opq')
            for (k, f) in v.stages:
                nm += ':' + k
                if f is not None:
                    args.append(self.term(st, f))
            return self.uf(nm, args, self._sort_named('iter'))
        if isinstance(v, VColl):
            return self.uf('collect:' + self.tname(v.ty), [self.term(st, v.it)], self.sort(v.ty))
        if isinstance(v, VUninit):
            raise ToolLimit('use of uninitialised value')
        raise ToolLimit(f'no term for {type(v).__name__}')

    def _sort_named(self, name):
        if name not in self.sorts:
            self.sorts[name] = z3.DeclareSort(name)
        return self.sorts[name]

    def field_of_term(self, st, t, ty, variant, i, fty):
        """field i of opaque term t (of normalised type ty), projected from MIR."""
        n = self.nty(fty)
        if n[0] == 'mut':
            key = ('mutfld', t.sexpr(), variant, i)
            if key not in st.ghost:
                inner = self.symval(st, n[1], f'fld:{t.sort().name()}:{variant}:{i}', [t])
                st.ghost[key] = VRef(st.alloc(inner))
            return st.ghost[key]
        v = self.symval(st, n, f'fld:{t.sort().name()}:{variant}:{i}', [t])
        en = t.sort().name().split('<')[0]
        if is_term(v) and variant and en in ('Option', 'Result', 'ControlFlow', 'InkAttributeKind', 'NodeOrToken'):
            d = self.uf(f'discr:{t.sort().name()}', [t], z3.IntSort())
            mk = self.uf(f'mk:{t.sort().name()}:{variant}', [v], t.sort())
            self.fact(st, z3.Implies(d == self.defs.variant_index(en, variant), t == mk))
        return v

    def discr(self, st, v):
        if isinstance(v, VRef):
            v = self.read_ref(st, v)
        if isinstance(v, VBox):
            v = st.cells[v.cell]
        if isinstance(v, VAdt):
            en = v.ty.split('<')[0]
            if v.variant is None:
                if v.base is not None:
                    return self.discr(st, v.base)
                raise ToolLimit(f'discriminant of {v.ty}')
            if en not in self.defs.enums:
                raise ToolLimit(f'unknown enum {en}')
            return z3.IntVal(self.defs.variant_index(en, v.variant))
        if is_term(v):
            if v.sort() == z3.IntSort():
                return v
            sn = v.sort().name()
            d = self.uf(f'discr:{sn}', [v], z3.IntSort())
            en = sn.split('<')[0]
            if en in self.defs.enums:
                n = len(self.defs.enums[en])
                self.fact(st, z3.And(d >= 0, d < n))
                for idx, (vn, ar) in enumerate(self.defs.enums[en]):
                    if ar == 0 and n <= 8:
                        self.fact(st, z3.Implies(d == idx, v == self.uf(f'mk:{sn}:{vn}', [], v.sort())))
            return d
        raise ToolLimit(f'discriminant of {type(v).__name__}')

    # ------------------------------------------------------------ places
    def read_ref(self, st, r):
        return self.read_projs(st, st.cells[r.cell], r.projs)

    def read_projs(self, st, v, projs):
        variant = None
        for p in projs:
            k = p[0]
            if k == 'deref':
                if isinstance(v, VRef):
                    v = self.read_ref(st, v)
                elif isinstance(v, VBox):
                    v = st.cells[v.cell]
                continue
            if isinstance(v, VRef):
                v = self.read_ref(st, v)
            if isinstance(v, VBox) and k == 'field':
                continue       # Box -> Unique -> NonNull -> pointer: same box
            if k == 'downcast':
                variant = p[1]
                continue
            if k == 'field':
                v = self.get_field(st, v, variant, p[1], p[2])
                variant = None
            elif k == 'mapval':
                ok, v2 = self.map_get_forced(st, v, p[1])
                v = v2
            elif k in ('index', 'cindex', 'at'):
                idx = p[1] if k != 'index' else p[1]
                v = self.seq_at(st, v, p)
            elif k == 'subslice':
                if isinstance(v, VSeq):
                    end = len(v.items) if p[2] in ('', None) else (len(v.items) + int(p[2]) if p[2].startswith('-') else int(p[2]))
                    v = VSeq(v.items[p[1]:end], v.ety)
                else:
                    raise ToolLimit('subslice of symbolic sequence')
            else:
                raise ToolLimit(f'projection {k}')
        return v

    def seq_at(self, st, v, p):
        idx = p[1]
        if isinstance(v, VSeq):
            if k_int(idx) is not None:
                return v.items[k_int(idx)]
            raise ToolLimit('symbolic index into concrete sequence')
        if is_term(v):
            m = re.match(r'^Vec<(.*)>$', v.sort().name())
            i = idx if is_term(idx) else z3.IntVal(idx)
            ety = p[3] if len(p) > 3 else None
            if ety is None:
                raise ToolLimit('element type')
            return self.symval(st, ety, 'at', [v, i])
        raise ToolLimit('index')

    def get_field(self, st, v, variant, i, fty):
        if isinstance(v, VAdt):
            if i in v.fields and (variant is None or v.variant is None or v.variant == variant):
                return v.fields[i]
            if v.base is not None:
                return self.get_field(st, v.base, variant, i, fty)
            if v.variant is not None and variant is not None and v.variant != variant:
                return self.fresh(st, fty, 'dead')
            raise ToolLimit(f'field {i} of {v}')
        if isinstance(v, VClosure):
            return v.caps[i]
        if is_term(v):
            return self.field_of_term(st, v, None, variant, i, fty)
        if isinstance(v, VUninit):
            return UNINIT
        raise ToolLimit(f'field of {type(v).__name__}')

    def write_projs(self, st, v, projs, new):
        """returns updated value v with projs := new"""
        if not projs:
            return new
        p, rest = projs[0], projs[1:]
        k = p[0]
        if k == 'deref':
            if isinstance(v, VRef):
                self.write_ref(st, v, rest, new)
                return v
            if isinstance(v, VBox):
                st.cells[v.cell] = self.write_projs(st, st.cells[v.cell], rest, new)
                return v
            return self.write_projs(st, v, rest, new)
        if isinstance(v, VRef):
            self.write_ref(st, v, projs, new)
            return v
        variant = None
        if k == 'downcast':
            variant = p[1]
            p, rest = rest[0], rest[1:]
            k = p[0]
        if k == 'field':
            i, fty = p[1], p[2]
            if isinstance(v, VUninit):
                v = VAdt('partial', variant, {})
            if isinstance(v, VAdt):
                old = v.fields.get(i)
                if rest:
                    if old is None:
                        old = self.get_field(st, v, variant, i, fty)
                    new = self.write_projs(st, old, rest, new)
                f = dict(v.fields)
                f[i] = new
                return VAdt(v.ty, v.variant, f, v.base)
            if is_term(v):
                if rest:
                    old = self.field_of_term(st, v, None, variant, i, fty)
                    new = self.write_projs(st, old, rest, new)
                return VAdt(v.sort().name(), variant, {i: new}, v)
            if isinstance(v, VClosure):
                caps = list(v.caps)
                caps[i] = self.write_projs(st, caps[i], rest, new)
                return VClosure(v.cid, caps)
            raise ToolLimit(f'write field of {type(v).__name__}')
        if k == 'mapval':
            ok, old = self.map_get_forced(st, v, p[1])
            nv = self.write_projs(st, old, rest, new)
            return VMap(v.base, v.kty, v.vty, v.ups + ((p[1], True, nv),))
        if k in ('index', 'cindex', 'at'):
            if isinstance(v, VSeq) and k_int(p[1]) is not None:
                items = list(v.items)
                items[k_int(p[1])] = self.write_projs(st, items[k_int(p[1])], rest, new)
                return VSeq(items, v.ety)
        raise ToolLimit(f'write projection {k}')

    def write_ref(self, st, r, rest, new):
        st.cells[r.cell] = self.write_projs(st, st.cells[r.cell], r.projs + tuple(rest), new)

    def map_get_forced(self, st, m, key):
        """value of a key known to be present"""
        for (k, p, val) in reversed(m.ups):
            e = z3.simplify(self.term(st, k) == self.term(st, key))
            if z3.is_true(e):
                return True, val
            if not z3.is_false(e) and self.feasible(st, [e]):
                raise ToolLimit('map value behind possibly equal key')
        return True, self.map_base_val(st, m, key)

    def map_base_val(self, st, m, key):
        return self.symval(st, m.vty, 'mapval', [m.base, self.term(st, key)])

    def map_base_has(self, st, m, key):
        if m.base is None:
            return z3.BoolVal(False)
        return self.uf('maphas', [m.base, self.term(st, key)], z3.BoolSort())

    def as_map(self, st, v, ty=None):
        """coerce a value to VMap"""
        if isinstance(v, VMap):
            return v
        if is_term(v):
            m = re.match(r'^(HashMap|HashSet|BTreeMap|BTreeSet)<(.*)>$', v.sort().name())
            if not m:
                raise ToolLimit('not a map: ' + v.sort().name())
            args = split_top(m.group(2))
            if m.group(1).endswith('Set'):
                return VMap(v, args[0], '()')
            return VMap(v, args[0], args[1])
        raise ToolLimit('map expected')

    def map_has(self, st, m, key):
        """membership as a formula (no case split)"""
        m = self.as_map(st, m)
        e = self.map_base_has(st, m, key)
        for (k, p, v) in m.ups:
            e = z3.If(self.term(st, k) == self.term(st, key), z3.BoolVal(p), e)
        return z3.simplify(e)

    def map_lookup(self, st, m, key):
        """yields (state, present: bool, value or None)"""
        m = self.as_map(st, m)
        work = [(st, len(m.ups) - 1)]
        while work:
            s, i = work.pop()
            if i < 0:
                h = self.map_base_has(s, m, key)
                for val in (True, False):
                    c = h if val else z3.Not(h)
                    s2 = self.branch(s, c)
                    if s2 is not None:
                        yield s2, val, (self.map_base_val(s2, m, key) if val else None)
                continue
            (k, p, v) = m.ups[i]
            e = self.term(s, k) == self.term(s, key)
            s1 = self.branch(s, e)
            if s1 is not None:
                yield s1, p, v
            s2 = self.branch(s, z3.Not(e))
            if s2 is not None:
                work.append((s2, i - 1))

    # ------------------------------------------------------------ feasibility
    def inc_check(self, pc, extra, timeout):
        """one incremental solver whose assertion stack follows the path condition"""
        if self.inc is None:
            self.inc, self.inc_stack = z3.SimpleSolver(), []
        k = 0
        n = min(len(pc), len(self.inc_stack))
        while k < n and self.inc_stack[k].eq(pc[k]):
            k += 1
        if len(self.inc_stack) > k:
            self.inc.pop(len(self.inc_stack) - k)
            del self.inc_stack[k:]
        for c in pc[k:]:
            self.inc.push()
            self.inc.add(c)
            self.inc_stack.append(c)
        self.inc.push()
        self.inc.set('timeout', timeout)
        self.inc.add(*extra)
        r = self.inc.check()
        m = self.inc.model() if r == z3.sat else None
        self.inc.pop()
        return r, m

    def quantified(self, pc):
        for c in pc:
            k = c.get_id()
            q = self.quant_cache.get(k)
            if q is None:
                q = False
                work, seen = [c], set()
                while work:
                    e = work.pop()
                    if z3.is_quantifier(e):
                        q = True
                        break
                    for a in e.children():
                        if a.get_id() not in seen:
                            seen.add(a.get_id())
                            work.append(a)
                self.quant_cache[k] = q
                self.quant_keep.append(c)
            if q:
                return True
        return False

    def feasible(self, st, extra=()):
        t0 = time.time()
        # with quantified facts around the search may not end: not knowing means feasible, which only adds paths
        r, _ = self.inc_check(st.pc, list(extra), 150 if self.quantified(st.pc) else 3000)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        return r != z3.unsat

    def branch(self, st, c):
        """fork st assuming c; None when infeasible"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return st.fork()
        if z3.is_false(c):
            return None
        if not self.feasible(st, [c]):
            return None
        s = st.fork()
        s.assume(c)
        return s

    def split_enum(self, st, v, enum=None):
        """yields (state, variant name, [field getter])"""
        if isinstance(v, VRef):
            v = self.read_ref(st, v)
        if isinstance(v, VBox):
            v = st.cells[v.cell]
        if isinstance(v, VAdt) and v.variant is not None:
            yield st, v.variant, v
            return
        d = self.discr(st, v)
        en = enum or (v.sort().name().split('<')[0])
        for idx, (vn, ar) in enumerate(self.defs.enums[en]):
            s = self.branch(st, d == idx)
            if s is not None:
                yield s, vn, v

    def option_cases(self, st, v):
        """yields (state, None) or (state, (payload,))"""
        for s, vn, vv in self.split_enum(st, v, 'Option'):
            if vn == 'None':
                yield s, None
            else:
                yield s, (self.payload(s, vv, 'Some'),)

    def payload(self, st, v, variant, i=0):
        if isinstance(v, VAdt):
            if i in v.fields and (v.variant is None or v.variant == variant):
                return v.fields[i]
            return self.get_field(st, v, variant, i, self.payload_ty(v.ty, variant, i))
        return self.field_of_term(st, v, None, variant, i, self.payload_ty(v.sort().name(), variant, i))

    def payload_ty(self, sname, variant, k=0):
        p = models_toml.PAYLOAD.get((sname, variant))
        if p is not None:
            return self.nty(p)
        i = sname.find('<')
        args = split_top(sname[i + 1:-1]) if i >= 0 else []
        en = sname[:i] if i >= 0 else sname
        d = self.defs.payloads.get(en, {}).get(variant)
        if d is not None:
            params, tys = d
            if k >= len(tys):
                raise ToolLimit(f'payload {k} of {sname}::{variant}')
            ty = tys[k]
            for p, a in zip(params, args):
                ty = re.sub(r'\b%s\b' % p, a, ty)
            return self.nty(ty)
        if i < 0:
            raise ToolLimit('payload type of ' + sname)
        if en == 'Option':
            a = args[0]
        elif en == 'Result':
            a = args[0] if variant == 'Ok' else args[1]
        elif en == 'ControlFlow':
            a = args[1] if variant == 'Continue' else args[0]
        else:
            raise ToolLimit('payload type of ' + sname)
        return self.nty_from_name(a)

    def nty_from_name(self, a):
        return self.norm(parse_ty(a))

    def some(self, v, ty=None):
        return VAdt(f'Option<{self.vname(v)}>' if ty is None else ty, 'Some', {0: v})

    def none(self, ty='Option<?>'):
        return VAdt(ty, 'None', {})

    def vname(self, v):
        if is_term(v):
            s = v.sort()
            if s == z3.StringSort():
                return 'str'
            if s == z3.BoolSort():
                return 'bool'
            return s.name()
        if isinstance(v, VAdt):
            return v.ty
        if isinstance(v, VRef):
            return 'mut'
        if isinstance(v, VSeq):
            return f'Vec<{v.ety}>'
        if isinstance(v, VColl):
            return self.tname(v.ty)
        return type(v).__name__

    # ------------------------------------------------------------ constants
    def eval_const(self, st, c, want_ty=None):
        k = c[0]
        if k == 'str':
            return zstr(c[1])
        if k == 'bytes':
            return VSeq([z3.IntVal(ord(x)) for x in c[1]], 'u8')
        if k == 'char':
            return z3.IntVal(c[1])
        if k == 'bool':
            return z3.BoolVal(c[1])
        if k == 'int':
            return z3.IntVal(c[1])
        if k == 'unit':
            return UNIT
        p = c[1]
        if p.startswith('ZeroSized: '):
            p = p[11:]
        if p.startswith('{closure@'):
            return VClosure(strip_cl(p), [])
        if p.startswith('{alloc'):
            m = re.match(r'\{(alloc\d+)(?:<imm>)?: (.*)\}$', p)
            cr = self.crate_stack[-1]
            stat = cr.statics.get(m.group(1))
            if stat and re.search(r'\bLazy(?:Lock)?<', m.group(2)):
                # a lazily initialised static holds what its initialiser returns
                init = cr.bodies.get(stat + '::{closure#0}')
                if init is not None:
                    outs = [o for o in self.exec_body(init, [UNIT] * len(init.argtys), st.fork())]
                    if len(outs) == 1 and outs[0].panic is None:
                        st.cells.update(outs[0].st.cells)
                        return outs[0].val
            return self.symval(st, m.group(2), m.group(1) + '@' + self.crate_stack[-1].name)
        m = re.match(r'^(.*)::\{constant#\d+\}$', p)
        if m:
            segs = def_key(m.group(1))
            if len(segs) >= 2 and segs[-2] in self.defs.enums and any(vn == segs[-1] for vn, _ in self.defs.enums[segs[-2]]):
                return z3.IntVal(self.defs.variant_index(segs[-2], segs[-1]))
        if p.endswith('::METHOD'):
            k = def_key(p)
            if isinstance(k[0], tuple) and k[0][1] in self.defs.methods:
                return zstr(self.defs.methods[k[0][1]])
        # promoted / const item in this crate
        b = self.find_const(p)
        if b is not None:
            outs = self.exec_body(b, [], st.fork())
            outs = [o for o in outs if not o.panic]
            if len(outs) != 1:
                raise ToolLimit('const ' + p)
            o = outs[0]
            # const evaluation allocates only; keep its cells
            st.cells.update(o.st.cells)
            for x in o.st.pc[len(st.pc):]:
                st.assume(x)
            return o.val
        # enum unit variant?
        segs = def_key(p)
        if len(segs) >= 2 and isinstance(segs[-2], str) and segs[-2] in self.defs.enums and any(vn == segs[-1] for vn, _ in self.defs.enums[segs[-2]]):
            if any(vn == segs[-1] and ar > 0 for vn, ar in self.defs.enums[segs[-2]]):
                return VFn(p)
            return self.mk_adt(st, p, [], None)
        if want_ty is not None and self.nty(want_ty)[0] not in ('fndef', 'fnptr', 'dyn', 'closure'):
            n = self.nty(want_ty)
            nm = 'const:' + '::'.join(map(str, segs)) + self.gtag(p)
            return self.symval(st, n, nm)
        if len(segs) >= 3 and segs[0] == 'lsp_types' and re.fullmatch(r'[A-Z][A-Z0-9_]+', str(segs[-1])):
            # `lsp_types::Kind::NAME`: associated constants of lsp_types have type Self
            return self.symval(st, self.nty('::'.join(map(str, segs[:-1]))), 'const:' + '::'.join(map(str, segs)))
        return VFn(p)

    def gtag(self, path):
        """names that mention a type parameter are distinguished per instantiation"""
        path = re.sub(r'<impl [\w:]+>::', '', path)
        if self.gen_stack and self.gen_stack[-1] and re.search(r'(^|[<&( ,])(?:[A-Z]|Self|impl )\b(?!:)', path):
            return '@' + self.gen_stack[-1]
        return ''

    def find_const(self, p):
        for cr in [self.crate_stack[-1]] + [c for c in self.crates if c is not self.crate_stack[-1]]:
            key = p
            b = cr.bodies.get(p)
            if b is None:
                want = def_key(p)
                cand = self.const_index(cr).get(want[-2:] if len(want) > 1 else want, [])
                for dk, bb in cand:
                    if len(dk) <= len(want) and want[-len(dk):] == dk:
                        b = bb
                        break
                    if len(want) <= len(dk) and dk[-len(want):] == want:
                        b = bb
                        break
            if b is None and 'promoted' in p:
                # inside an impl generated by the entity attribute macro: its impl header is the attribute text
                w = def_key(p)
                if isinstance(w[0], tuple):
                    c = [bb for k, bb in cr.bodies.items() if k.startswith(f'<{w[0][1]} as #[') and k.endswith('>::' + '::'.join(w[1:]))]
                    if len(c) == 1:
                        b = c[0]
            if b is not None and not b.header.startswith('fn '):
                return b
        return None

    def const_index(self, cr):
        if not hasattr(cr, '_cidx'):
            cr._cidx = {}
            for k, b in cr.bodies.items():
                if not b.header.startswith('fn '):
                    dk = def_key(k)
                    cr._cidx.setdefault(dk[-2:] if len(dk) > 1 else dk, []).append((dk, b))
        return cr._cidx

    # ------------------------------------------------------------ rvalues
    def operand(self, st, fr, o, want=None):
        if o[0] == 'const':
            return self.eval_const(st, o[1], want)
        return self.read_place(st, fr, o[1])

    def resolve_projs(self, st, fr, projs, v=None):
        out = []
        for p in projs:
            if p[0] == 'index':
                iv = st.cells[fr.cells[p[1]]]
                out.append(('at', z3.simplify(iv)))
            elif p[0] == 'cindex':
                if p[1] < 0:
                    raise ToolLimit('index from end')
                out.append(('at', z3.IntVal(p[1])))
            else:
                out.append(p)
        return out

    def read_place(self, st, fr, pl):
        v = st.cells[fr.cells[pl[1]]]
        projs = self.resolve_projs(st, fr, pl[2])
        # attach element types for symbolic indexing
        projs = self.annotate(fr, pl, projs)
        return self.read_projs(st, v, projs)

    def annotate(self, fr, pl, projs):
        if not any(p[0] == 'at' for p in projs):
            return projs
        out = []
        for i, p in enumerate(projs):
            if p[0] == 'at':
                t = self.place_ty(fr, (pl[0], pl[1], pl[2][:i + 1]))
                out.append(('at', p[1], None, t))
            else:
                out.append(p)
        return out

    def place_ty(self, fr, pl):
        t = parse_ty(fr.body.locals[pl[1]])
        for p in pl[2]:
            if p[0] == 'deref':
                if t[0] in ('ref',):
                    t = t[2]
                elif t[0] == 'ptr':
                    t = t[1]
                elif t[0] == 'adt' and t[2]:
                    t = t[2][0]
            elif p[0] == 'field':
                t = parse_ty(p[2])
            elif p[0] in ('index', 'cindex'):
                while t[0] == 'ref':
                    t = t[2]
                t = t[1] if t[0] in ('slice', 'array') else t
        return t

    def mk_adt(self, st, path, fields, dest_ty):
        p = mir.strip_lifetimes(path)
        segs = [x for x in split_top(p, '::') if x]
        gen = ''
        names = []
        for s in segs:
            if s.startswith('<'):
                gen = s
            else:
                if '<' in s:
                    gen = s[s.index('<'):]
                    s = s[:s.index('<')]
                names.append(s)
        variant = None
        if len(names) >= 2 and names[-2] in self.defs.enums and any(v == names[-1] for v, _ in self.defs.enums[names[-2]]):
            variant, base = names[-1], names[-2]
        else:
            base = names[-1]
            # a bare variant name (use Enum::*;) : trust the destination type
            if dest_ty is not None:
                n = self.nty(dest_ty)
                if n[0] == 'adt' and n[1] != base and n[1] in self.defs.enums and any(v == base for v, _ in self.defs.enums[n[1]]):
                    variant, base = base, n[1]
        if dest_ty is not None:
            n = self.nty(dest_ty)
        else:
            n = self.nty('::'.join(names[:-1] if variant else names) + gen)
        if n[0] == 'mut':
            n = n[1]
        if n[0] == 'adt' and n[1] in self.defs.clike and variant:
            return z3.IntVal(self.defs.variant_index(n[1], variant))
        if base in TRANSPARENT and fields:
            return fields[0]
        tn = self.tname(n) if n[0] == 'adt' else base
        if variant is None and tn.split('<')[0] != base and tn.split('<')[0] not in (base,):
            tn = base + gen
        return VAdt(tn, variant, dict(enumerate(fields)))

    def rvalue(self, st, fr, rv, dest_ty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1], dest_ty)
        if k == 'const':
            return self.eval_const(st, rv[1], dest_ty)
        if k == 'ref':
            pl = rv[2]
            if rv[1]:
                return self.place_ref(st, fr, pl)
            return self.shared_ref(st, fr, pl)
        if k == 'discr':
            return self.discr(st, self.read_place(st, fr, rv[1]))
        if k == 'len':
            v = self.read_place(st, fr, rv[1])
            return self.seq_len(st, v)
        if k == 'tuple':
            vals = [self.operand(st, fr, o) for o in rv[1]]
            if not vals:
                return UNIT
            return VAdt(self.tname(self.nty(dest_ty)) if dest_ty is not None else 'tuple', None, dict(enumerate(vals)))
        if k == 'array':
            n = self.nty(dest_ty) if dest_ty is not None else None
            ety = self.tname(n[2][0]) if n and n[0] == 'adt' and n[2] else None
            et = n[2][0] if n and n[0] == 'adt' and n[2] else None
            return VSeq([self.operand(st, fr, o, et) for o in rv[1]], ety)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            m = re.match(r'^(?:const )?(\d+)(?:_usize)?$', rv[2])
            if not m:
                raise ToolLimit('repeat ' + rv[2])
            return VSeq([v] * int(m.group(1)))
        if k == 'closure':
            return VClosure(strip_cl(rv[1]), self.captures(st, fr, strip_cl(rv[1]), [self.operand(st, fr, o) for o in rv[2]]))
        if k == 'adt':
            fty = None
            vals = [self.operand(st, fr, o) for _, o in rv[2]]
            return self.mk_adt(st, rv[1], vals, dest_ty)
        if k == 'newbox':
            return VBox(st.alloc(UNINIT))
        if k == 'cast':
            v = self.operand(st, fr, rv[1])
            return self.cast(st, v, rv[2], rv[3], dest_ty)
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if z3.is_bool(v):
                    return z3.Not(v)
                raise ToolLimit('bitwise not')
            return -v
        if k == 'bin':
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, fr, rv)
        raise ToolLimit('rvalue ' + k)

    def captures(self, st, fr, cid, caps):
        """rustc's MIR printer zips capture operands with the captured *variables*, so when a closure captures
        several places of one variable the trailing operands are missing from the text.  They are recovered
        from the closure body's debug info, which names the captured place (`var__field__field`)."""
        try:
            cr, b = self.find_closure(cid)
        except ToolLimit:
            return caps
        b.parse()
        need = {}
        for nm, pl in b.debug:
            m = re.match(r'^\(?\*?\(?\(?\(\*?_1\)?\.(\d+): (.*)$', pl)
            if not m:
                m = re.match(r'^(?:\(\*)?\(\(?\*?_1\)?\.(\d+): (.*)$', pl)
            if m:
                need[int(m.group(1))] = (nm, pl)
        caps = list(caps)
        for i in range(len(caps), max(need) + 1 if need else 0):
            if i not in need:
                raise ToolLimit('capture of ' + cid)
            nm, pl = need[i]
            c = self.outer_place(st, fr, nm)
            if c is None:
                raise ToolLimit(f'capture {nm} of {cid}')
            m = re.search(r'_1\)?\.%d: (.*)$' % i, pl)
            if m.group(1).startswith('&mut'):
                caps.append(self.mkref(st, fr.cells[c[0]], c[1]))
            else:
                v = self.read_projs(st, st.cells[fr.cells[c[0]]], c[1])
                if isinstance(v, VRef) and not m.group(1).startswith('&mut'):
                    v = self.read_ref(st, v)
                caps.append(v)
        return caps

    def outer_place(self, st, fr, nm):
        """(local, projections) of a captured place named var__f__g in the enclosing frame"""
        parts = nm.split('__')
        cands = {}
        for n, pl in fr.body.debug:
            cands.setdefault(n, pl)
        for k in range(len(parts), 0, -1):
            base = '__'.join(parts[:k])
            if base in cands:
                try:
                    pl = mir.parse_place(cands[base])
                except Exception:
                    return None
                loc, projs = pl[1], list(pl[2])
                ty = self.place_ty(fr, (pl[0], loc, projs))
                for f in parts[k:]:
                    while ty[0] == 'ref' or (ty[0] == 'adt' and short(ty[1]) == 'Box'):
                        projs.append(('deref',))
                        ty = ty[2] if ty[0] == 'ref' else ty[2][0]
                    if ty[0] == 'tuple':
                        idx = int(f)
                        fty = ty[1][idx]
                    else:
                        fs = self.defs.structs.get(short(ty[1])) if ty[0] == 'adt' else None
                        idx = next((j for j, (x, _) in enumerate(fs or []) if x == f), None)
                        if idx is None:
                            return None
                        fty = parse_ty(fs[idx][1])
                    projs.append(('field', idx, fty))
                    ty = fty
                return loc, projs
        return None

    def cast(self, st, v, ty, kind, dest_ty):
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute'):
            return v
        n = self.nty(ty)
        if kind == 'IntToInt':
            if is_term(v) and z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if is_term(v) and n[0] == 'prim' and n[1] in INT_RANGES:
                lo, hi = INT_RANGES[n[1]]
                if z3.is_int_value(v) and lo <= v.as_long() <= hi:
                    return v
                # exact when in range; modular otherwise
                if self.feasible(st, [z3.Not(z3.And(v >= lo, v <= hi))]):
                    m = hi - lo + 1
                    return z3.If(z3.And(v >= lo, v <= hi), v, ((v - lo) % m) + lo)
                return v
            if is_term(v) and n == ('prim', 'char'):
                return v
            d = self.discr(st, v)
            return d
        raise ToolLimit('cast ' + kind)

    def binop(self, st, op, a, b, fr, rv):
        if op in ('Eq', 'Ne'):
            if not (is_term(a) and is_term(b)):
                a, b = self.term(st, a), self.term(st, b)
            e = (a == b)
            return e if op == 'Eq' else z3.Not(e)
        if not (is_term(a) and is_term(b)):
            raise ToolLimit('binop on composite')
        if z3.is_bool(a):
            if op == 'BitAnd':
                return z3.And(a, b)
            if op == 'BitOr':
                return z3.Or(a, b)
            if op == 'BitXor':
                return z3.Xor(a, b)
            raise ToolLimit('bool binop ' + op)
        if op == 'Lt': return a < b
        if op == 'Le': return a <= b
        if op == 'Gt': return a > b
        if op == 'Ge': return a >= b
        t = None
        for o in (rv[2], rv[3]):
            if o[0] in ('move', 'copy'):
                t = self.nty(self.place_ty(fr, o[1]))
                break
            if o[0] == 'const' and o[1][0] == 'int':
                t = ('prim', o[1][2])
        lo, hi = INT_RANGES.get(t[1], (None, None)) if t and t[0] == 'prim' else (None, None)
        base = op.replace('Checked', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = a + b if base == 'Add' else a - b if base == 'Sub' else a * b
            if op.startswith('Checked'):
                ov = z3.Not(z3.And(r >= lo, r <= hi))
                return VAdt('checked', None, {0: r, 1: ov})
            if lo is None:
                return r
            m = hi - lo + 1
            return z3.If(z3.And(r >= lo, r <= hi), r, ((r - lo) % m) + lo)
        if base == 'Div' and lo == 0:
            return a / b
        if base == 'Rem' and lo == 0:
            return a % b
        raise ToolLimit('binop ' + op)

    def local_ty(self, fr, o):
        try:
            pl = o[1] if o[0] in ('copy', 'move') else None
            return fr.body.locals.get(pl[0]) if pl is not None and not pl[1] else None
        except (TypeError, IndexError, AttributeError):
            return None

    def place_ref(self, st, fr, pl):
        """&mut place, as a VRef to the underlying cell"""
        cell = fr.cells[pl[1]]
        projs = self.annotate(fr, pl, self.resolve_projs(st, fr, pl[2]))
        return self.mkref(st, cell, projs)

    def mkref(self, st, cell, projs):
        cur, acc = cell, []
        v = st.cells[cell]
        for p in projs:
            if p[0] == 'deref':
                vv = self.read_projs(st, st.cells[cur], acc)
                if isinstance(vv, VRef):
                    cur, acc = vv.cell, list(vv.projs)
                    continue
                if isinstance(vv, VBox):
                    cur, acc = vv.cell, []
                    continue
                continue
            acc.append(p)
        return VRef(cur, acc)

    def shared_ref(self, st, fr, pl):
        v = self.read_place(st, fr, pl)
        if isinstance(v, VRef) and not (pl[2] and pl[2][-1][0] == 'deref'):
            # & of a place holding a &mut: snapshot of what it points to
            return self.read_ref(st, v)
        if isinstance(v, VRef):
            return self.read_ref(st, v)
        return v

    def seq_len(self, st, v):
        if isinstance(v, VRef):
            v = self.read_ref(st, v)
        if isinstance(v, VSeq):
            return z3.IntVal(len(v.items))
        if isinstance(v, VColl):
            it = v.it
            if isinstance(it, VSymIter) and all(k == 'map' for k, _ in it.stages):
                return self.seq_len(st, it.src)
            c = v
            v = self.term(st, v)
            if self.coll_facts and not self.bound and isinstance(it, VSymIter) and all(k in ('map', 'filter', 'filter_map') for k, _ in it.stages):
                # none, at most one of the elements pass the filters
                t = self.uf('len', [v], z3.IntSort())
                n = self.seq_len(st, it.src)
                i, j = z3.Int('j!ca'), z3.Int('j!cb')
                pi, pj = (self.elem_formula(self, st, it, q, None, 'any') for q in (i, j))
                st.assume(z3.And(t >= 0, t <= n))
                st.assume((t > 0) == z3.Exists([i], z3.And(i >= 0, i < n, pi)))
                st.assume((t > 1) == z3.Exists([i, j], z3.And(i >= 0, i < j, j < n, pi, pj)))
                return t
        if is_term(v):
            if v.sort() == z3.StringSort():
                return z3.Length(v)
            t = self.uf('len', [v], z3.IntSort())
            self.fact(st, z3.And(t >= 0, t <= (1 << 62)))
            return t
        raise ToolLimit('len')

    # ------------------------------------------------------------ calls
    def resolve(self, func):
        """local body for a call path, or None"""
        cr0 = self.crate_stack[-1]
        want = def_key(func)
        last = want[-1]
        cands = self.last_seg.get(last if isinstance(last, str) else str(last), [])
        if not cands:
            return None
        w0 = want[0]
        if isinstance(w0, tuple):       # <T as Trait>::m
            sel = [(cr, dk, k, b) for cr, dk, k, b in cands
                   if isinstance(dk[0], tuple) and dk[0][1] == w0[1] and dk[0][2] == w0[2] and dk[1:] == want[1:]]
            if len(sel) > 1:
                # disambiguate generic traits (From<X>) by the full trait text
                inner = mir.strip_lifetimes(func)
                c = match_close(inner, 0)
                tr = inner[1:c][find_top(inner[1:c], ' as ') + 4:]
                tr = short(tr, True)
                sel2 = [x for x in sel if self.trait_text(x[2]) == tr]
                sel = sel2 or sel
            if len(sel) > 1:
                sel = [x for x in sel if x[0] is cr0] or sel
            if not sel:
                return None
            if len(sel) > 1:
                raise ToolLimit('ambiguous ' + func)
            return sel[0][0], sel[0][3]
        sel = []
        for cr, dk, k, b in cands:
            if isinstance(dk[0], tuple):
                continue
            n = min(len(dk), len(want))
            if dk[-n:] == want[-n:]:
                sel.append((n, cr, dk, k, b))
            elif len(dk) >= 2 and len(want) >= 2 and want[0] in [c.name for c in self.crates] and dk[-1] == want[-1] and len(want) == 2 and want[0] == cr.name and not dk[-2][0].isupper():
                sel.append((1, cr, dk, k, b))   # re-exported free function
        if not sel:
            return None
        # exact path match wins; a free function must match in full unless re-exported
        ext = want[0] in [c.name for c in self.crates] or True
        exact = [x for x in sel if x[2] == want]
        if exact:
            sel = exact
        else:
            good = []
            for x in sel:
                n, cr, dk, k, b = x
                if len(dk) >= 2 and isinstance(dk[-2], str) and (dk[-2][0].isupper() or dk[-2].startswith('{')):
                    if len(want) >= 2 and want[-2] == dk[-2]:
                        good.append(x)
                elif want[0] == cr.name and (cr is not cr0):
                    good.append(x)
                elif n >= 2 and cr is cr0:
                    good.append(x)
                elif len(want) == 1 and cr is cr0 and len(dk) == 1:
                    good.append(x)
            sel = good
        if len(sel) > 1:
            s2 = [x for x in sel if x[1] is cr0]
            sel = s2 or sel
        if len(sel) != 1:
            if len(sel) > 1:
                raise ToolLimit('ambiguous ' + func)
            return None
        return sel[0][1], sel[0][4]

    def trait_text(self, canon):
        c = match_close(canon, 0)
        inner = canon[1:c]
        return short(inner[find_top(inner, ' as ') + 4:], True)

    def reaches_log(self, st, v, d=0):
        """is the list of results among what this value gives access to"""
        if d > 8:
            return True
        if isinstance(v, VRef):
            return self.reaches_log(st, self.read_ref(st, v), d + 1)
        if is_term(v):
            return v.sort().name() == self.log_sort
        if isinstance(v, VClosure):
            return any(self.reaches_log(st, c, d + 1) for c in v.caps)
        if isinstance(v, VAdt):
            return any(self.reaches_log(st, c, d + 1) for c in v.fields.values())
        if isinstance(v, VSymIter):
            return any(self.reaches_log(st, g, d + 1) for k, g in v.stages)
        return False

    def call(self, st, func, args, dest_ty):
        """list of Outcomes"""
        if self.any_types and self.nty(dest_ty) in self.any_types and not any(self.reaches_log(st, a) for a in args):
            return [Outcome(st, self.fresh(st, self.nty(dest_ty), 'any'))]
        key = def_key(func)
        # 1. contracts
        h = self.lookup(self.contracts, key)
        if h is not None:
            return list(h(self, st, func, args, dest_ty))
        if isinstance(key[0], tuple) and any('<' in c[1:] and ' as ' + key[0][2] + '<' in c for c in self.contracts):
            r = self.resolve(func)
            h = self.contracts.get(r[0].canon_def(r[1].name)) if r is not None else None
            if h is not None:
                return list(h(self, st, func, args, dest_ty))
        elif not isinstance(key[0], tuple) and any(c.rsplit('::', 1)[-1] == key[-1] for c in self.contracts):
            # called by a re-exported path
            r = self.resolve(func)
            h = self.contracts.get(r[0].canon_def(r[1].name)) if r is not None else None
            if h is not None:
                return list(h(self, st, func, args, dest_ty))
        # 2. models
        h = self.lookup(self.models, key)
        if h is not None:
            self.used_models.add('::'.join(map(str, key)))
            r = h(self, st, func, args, dest_ty)
            if r is not NotImplemented:
                return list(r)
        # 3. local body
        if '::'.join(map(str, key)) not in self.no_inline:
            r = self.resolve(func)
            if r is not None:
                cr, b = r
                self.inlined.add(cr.name + '::' + cr.canon_def(b.name))
                self.crate_stack.append(cr)
                g = ''
                if '<' in func:
                    g = ','.join(re.findall(r'<.*>', func)) + (self.gtag(func))
                self.gen_stack.append(g)
                try:
                    return self.exec_body(b, args, st)
                finally:
                    self.crate_stack.pop()
                    self.gen_stack.pop()
        # 4. generic trait models
        h = self.lookup(self.trait_models, key)
        if h is not None:
            self.used_models.add('::'.join(map(str, key)))
            r = h(self, st, func, args, dest_ty)
            if r is not NotImplemented:
                return list(r)
        # 5. uninterpreted
        return self.uninterpreted(st, func, args, dest_ty)

    def lookup(self, table, key):
        if not table:
            return None
        if isinstance(key[0], tuple):
            _, t, tr = key[0]
            m = key[1] if len(key) > 1 else ''
            for cand in (f'<{t} as {tr}>::{m}', f'<_ as {tr}>::{m}'):
                if cand in table:
                    return table[cand]
            return None
        for n in range(max(3, len(key)), 0, -1):
            if len(key) >= n:
                k = '::'.join(map(str, key[-n:]))
                if k in table and (n > 1 or len(key) == 1 or ('=' + k) in table):
                    return table[k]
        return None

    def uninterpreted(self, st, func, args, dest_ty):
        key = '::'.join(map(str, def_key(func)))
        ts = []
        for a in args:
            ts.append(self.term(st, a))
        n = self.nty(dest_ty)
        muts = [i for i, a in enumerate(args) if isinstance(a, VRef)]
        if muts and '&mut' in self.tname(n):
            raise ToolLimit(f'external call returning into a &mut argument: {key}')
        self.externs[key] = self.externs.get(key, 0) + 1
        r = self.symval(st, n, 'ext:' + key + self.gtag(func), ts)
        for i in muts:
            # the pointee afterwards is some function of the arguments
            self.write_ref(st, args[i], (), self.uf(f'ext!mut{i}:' + key, ts, ts[i].sort()))
        return [Outcome(st, r)]

    def call_value(self, st, f, args, dest_ty=None):
        """call a closure or fn item value with positional args"""
        if isinstance(f, VRef):
            fv = self.read_ref(st, f)
            if isinstance(fv, VClosure):
                return self.call_closure(st, fv, args, selfref=f)
            f = fv
        if isinstance(f, VClosure):
            return self.call_closure(st, f, args)
        if callable(f):
            return f(self, st, args)
        if isinstance(f, VFn):
            # constructor as function?
            segs = def_key(f.path)
            if len(segs) >= 2 and isinstance(segs[-2], str) and segs[-2] in self.defs.enums and any(v == segs[-1] for v, _ in self.defs.enums[segs[-2]]):
                return [Outcome(st, self.mk_adt(st, f.path, args, None))]
            if dest_ty is None:
                dest_ty = self.fn_ret_ty(f.path)
            return self.call(st, f.path, args, dest_ty)
        if is_term(f):
            ts = [f] + [self.term(st, a) for a in args]
            if dest_ty is None:
                raise ToolLimit('opaque callable')
            return [Outcome(st, self.symval(st, self.nty(dest_ty), 'apply', ts))]
        raise ToolLimit('call of ' + type(f).__name__)

    def fn_ret_ty(self, path):
        r = self.resolve(path)
        if r is not None:
            return r[1].retty
        m = self.known_ret.get('::'.join(map(str, def_key(path)[-2:])))
        if m:
            return m
        key = def_key(path)
        if isinstance(key[0], tuple):
            m = self.known_ret.get(f'<{key[0][1]} as {key[0][2]}>::{key[1]}') or self.known_ret.get(f'<_ as {key[0][2]}>::{key[1]}')
            if m:
                return m
            if key[0][2] in ('AstNode', 'AstToken', 'InkEntity') and key[1] == 'cast':
                return f'std::option::Option<{key[0][1]}>'
            if key[0][2] in ('AstNode', 'AstToken') and key[1] == 'syntax':
                return 'SyntaxNode' if key[0][2] == 'AstNode' else 'SyntaxToken'
        if key[-2:] == ('NodeOrToken', 'into_token') or key[-2:] == ('NodeOrToken', 'as_token'):
            return 'std::option::Option<SyntaxToken>'
        if key[-2:] == ('NodeOrToken', 'into_node') or key[-2:] == ('NodeOrToken', 'as_node'):
            return 'std::option::Option<SyntaxNode>'
        raise ToolLimit('return type of ' + path)
    known_ret = {}

    def find_closure(self, cid):
        for cr in [self.crate_stack[-1]] + self.crates:
            b = cr.closures.get(cid)
            if b is not None:
                return cr, b
        # lifetimes may be printed differently
        for cr in self.crates:
            for k, b in cr.closures.items():
                if strip_cl(k) == cid:
                    return cr, b
        raise ToolLimit('closure body ' + cid)

    def call_closure(self, st, f, args, selfref=None):
        cr, b = self.find_closure(f.cid)
        t0 = parse_ty(b.argtys[0])
        if t0[0] == 'ref' and t0[1]:
            if selfref is None:
                selfref = VRef(st.alloc(f))
            a0 = selfref
        else:
            a0 = f
        # closures take their arguments as a tuple, spread in MIR locals _2.._n
        self.crate_stack.append(cr)
        try:
            if b.name in self.contracts:
                return list(self.contracts[b.name](self, st, None, [a0] + list(args), None))
            return self.exec_body(b, [a0] + list(args), st)
        finally:
            self.crate_stack.pop()

    # ------------------------------------------------------------ bodies
    def exec_body(self, body, args, st, top=False):
        body.parse()
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise ToolLimit('inlining depth at ' + body.name)
        try:
            return self._exec_body(body, args, st)
        finally:
            self.depth -= 1

    def _exec_body(self, body, args, st):
        fr = Frame(body)
        for i in body.locals:
            fr.cells[i] = st.alloc(UNINIT)
        if len(args) != body.nargs:
            raise ToolLimit(f'arity of {body.name}: {len(args)} vs {body.nargs}')
        for i, a in enumerate(args):
            st.cells[fr.cells[i + 1]] = a
        outs, _ = self.exec_region(fr, 0, st, ())
        return outs

    def exec_region(self, fr, start, st, stops, within=None):
        """runs from block `start`; returns (outcomes, {loop head in `stops`: states that came to it}); `within`: paths that leave these blocks are not followed"""
        body = fr.body
        outs, backs = [], {}
        work = [(start, st, {}, None)]
        first = True
        while work:
            bb, s, visits, prev = work.pop()
            # back at a loop head from inside its loop; from elsewhere the loop is entered anew (an outer loop went round)
            if bb in stops and not first and prev in self.loop_heads(body)[bb]:
                backs.setdefault(bb, []).append(s)
                continue
            if within is not None and bb not in within:
                continue
            v = visits.get(bb, 0) + 1
            if v > self.max_visits:
                raise ToolLimit(f'loop without invariant in {body.name} bb{bb}')
            visits = dict(visits)
            visits[bb] = v
            if self.stats['paths'] > self.max_paths:
                raise ToolLimit('too many paths')
            if not (first and bb in stops) and bb in self.loop_heads(body) and self.must_cut(fr, bb, s):
                os_, conts = self.cut_loop(fr, bb, s, tuple(h for h in stops if h != bb), within)
                outs += os_
                for h, l in conts.items():
                    backs.setdefault(h, []).extend(l)
                first = False
                continue
            first = False
            for ns, nxt, val, panic in self.exec_block(fr, bb, s):
                if panic is not None:
                    self.stats['paths'] += 1
                    outs.append(Outcome(ns, None, panic))
                elif nxt is None:
                    self.stats['paths'] += 1
                    outs.append(Outcome(ns, val))
                else:
                    work.append((nxt, ns, visits, bb))
        return outs, backs

    # ------------------------------------------------------------ loops
    def succs(self, body, bb):
        out = []
        for s in body.block(bb):
            if s[0] == 'goto': out.append(s[1])
            elif s[0] == 'drop': out.append(s[2])
            elif s[0] == 'switch': out += [t for _, t in s[2]] + ([s[3]] if s[3] is not None else [])
            elif s[0] == 'assert': out.append(s[4])
            elif s[0] == 'call' and s[4] is not None: out.append(s[4])
        return out

    def loop_heads(self, body):
        """{head: blocks of the natural loop}"""
        if hasattr(self, '_lh') and body in self._lh:
            return self._lh[body]
        if not hasattr(self, '_lh'):
            self._lh = {}
        succ = {}
        color, heads, preds = {}, {}, {}
        stack = [(0, None)]
        order = []
        # iterative dfs for back edges
        st_ = [(0, iter(()))]
        def sc(b):
            if b not in succ:
                succ[b] = self.succs(body, b)
                for t in succ[b]:
                    preds.setdefault(t, set()).add(b)
            return succ[b]
        color[0] = 1
        st_ = [(0, iter(sc(0)))]
        backs = []
        while st_:
            b, it = st_[-1]
            for t in it:
                if color.get(t, 0) == 0:
                    color[t] = 1
                    st_.append((t, iter(sc(t))))
                    break
                if color[t] == 1:
                    backs.append((b, t))
            else:
                color[b] = 2
                st_.pop()
        for b, h in backs:
            blocks = heads.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in blocks:
                    continue
                blocks.add(x)
                w += list(preds.get(x, ()))
        self._lh[body] = heads
        return heads

    def must_cut(self, fr, bb, st):
        if self.crate_stack[-1].canon_def(fr.body.name) in self.cut_fns:
            return True
        blocks = self.loop_heads(fr.body)[bb]
        used, inner = set(), set()
        for b in blocks:
            for s in fr.body.block(b):
                if s[0] == 'assign' and s[2][0] == 'ref' and s[2][1]:
                    used.add(s[2][2][1])
                if s[0] in ('assign', 'call') and s[1] and not s[1][2]:
                    inner.add(s[1][1])
        # an iterator made anew in every iteration belongs to an inner loop
        for l in used - inner:
            v = st.cells.get(fr.cells[l])
            d = 0
            while isinstance(v, VRef) and d < 4:
                v = self.read_ref(st, v)
                d += 1
            if isinstance(v, (VSymIter, VSetIter, VOpqIter)):
                return True
            if is_term(v) and v.sort().name().split('<')[0] in self.iter_sorts:
                return True
        return False

    iter_sorts = {'Chars', 'CharIndices', 'Lines', 'Split', 'AstChildren', 'SyntaxElementChildren', 'Range'}

    def havoc(self, st, v, hint='hv'):
        if is_term(v):
            t = z3.Const(f'{hint}!{next(_cell)}', v.sort())
            return t
        if isinstance(v, VAdt):
            return VAdt(v.ty, None, {}, z3.Const(f'{hint}!{next(_cell)}', self._sort_named(v.ty))) if v.ty not in ('()',) and not v.ty.startswith('(') else \
                VAdt(v.ty, v.variant, {i: self.havoc(st, x, hint) for i, x in v.fields.items()}, v.base)
        if isinstance(v, VMap):
            return VMap(z3.Const(f'{hint}!{next(_cell)}', self._sort_named(f'HashMap<{v.kty},{v.vty}>')), v.kty, v.vty)
        if isinstance(v, VSeq):
            if v.ety is None:
                raise ToolLimit('havoc of sequence without element type')
            return z3.Const(f'{hint}!{next(_cell)}', self._sort_named(f'Vec<{v.ety}>'))
        if isinstance(v, VSymIter):
            if v.stages:
                return VSymIter(v.src, v.ety, v.stages, -1)
            pos = z3.Int(f'pos!{next(_cell)}')
            st.assume(z3.And(pos >= 0, pos <= self.seq_len(st, v.src)))
            return VSymIter(v.src, v.ety, v.stages, -1, pos)
        if isinstance(v, (VSetIter, VOpqIter, VFn, VClosure, VUninit)):
            return v
        raise ToolLimit('havoc of ' + type(v).__name__)

    def cut_loop(self, fr, bb, s0, stops=(), within=None):
        """one arbitrary iteration: everything an iteration may change is havocked at the head"""
        fn = self.crate_stack[-1].canon_def(fr.body.name)
        inv = self.loop_invs.get((fn, bb)) or self.loop_invs.get(fn)
        changed, gchanged = {}, set()
        base = dict(s0.cells)
        self.loop_entry = s0
        for rnd in range(12):
            s = s0.fork()
            for c, sample in changed.items():
                v0 = s0.cells[c]
                if isinstance(v0, VUninit):
                    s.cells[c] = UNINIT     # assigned before use in the iteration
                else:
                    s.cells[c] = self.havoc(s, v0)
                    if is_term(s.cells[c]) and s.cells[c].sort() == z3.IntSort():
                        for i, cc in fr.cells.items():
                            if cc == c:
                                self.range_axiom(s, self.nty(fr.body.locals[i]), s.cells[c])
            for g in gchanged:
                s.ghost[g] = list(s0.ghost.get(g) or []) + [('*', fn, bb)] if g == 'log' else ['*']
            if inv:
                self.loop_entry = s0
                inv(self, fr, s, 'assume')
            pre = s.fork()
            # first what one iteration changes, staying inside the loop
            outs, backs = self.exec_region(fr, bb, s, (bb,), self.loop_heads(fr.body)[bb])
            back = backs.get(bb, [])
            new, gnew = {}, set()
            for b in back:
                for c, v in base.items():
                    if c in changed:
                        continue
                    if not self.same(b.cells.get(c), v):
                        new[c] = b.cells.get(c)
                for g, v in b.ghost.items():
                    if isinstance(v, list) and g not in gchanged and len(v) != len(s0.ghost.get(g) or []):
                        gnew.add(g)
            if not new and not gnew:
                # then the arbitrary iteration and everything after the loop
                outs, backs = self.exec_region(fr, bb, pre.fork(), tuple(stops) + (bb,), within)
                back = backs.pop(bb, [])
                if within is None:
                    self.iterations.setdefault(fn, []).append((bb, fr, pre, back, outs))
                    if inv:
                        self.loop_entry = s0
                        inv(self, fr, s0, 'entry')
                        for b in back:
                            inv(self, fr, b, 'back')
                return outs, backs
            changed.update(new)
            gchanged |= gnew
        raise ToolLimit('loop does not stabilise in ' + fn)

    def same(self, a, b):
        if a is b:
            return True
        if is_term(a) and is_term(b):
            return a.sort() == b.sort() and a.eq(b)
        if isinstance(a, VUninit) and isinstance(b, VUninit):
            return True
        if isinstance(b, VUninit):
            return False
        if type(a) is type(b) and isinstance(a, VAdt):
            return a.ty == b.ty and a.variant == b.variant and a.fields.keys() == b.fields.keys() and \
                (a.base is b.base or (is_term(a.base) and is_term(b.base) and a.base.eq(b.base))) and all(self.same(a.fields[i], b.fields[i]) for i in a.fields)
        if type(a) is type(b) and isinstance(a, VRef):
            return a.cell == b.cell and a.projs == b.projs
        if type(a) is type(b) and isinstance(a, VSeq):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        return False

    def exec_block(self, fr, bb, st):
        """yields (state, next bb or None, return value, panic)"""
        stmts = fr.body.block(bb)
        for s in stmts:
            k = s[0]
            if k == 'assign':
                dest = s[1]
                dty = self.place_ty(fr, dest)
                v = self.rvalue(st, fr, s[2], dty)
                self.assign(st, fr, dest, v)
            elif k == 'setdiscr':
                raise ToolLimit('set discriminant')
            elif k == 'goto':
                yield st, s[1], None, None
                return
            elif k == 'return':
                yield st, None, st.cells[fr.cells[0]], None
                return
            elif k == 'unreachable':
                return
            elif k == 'resume':
                return
            elif k == 'drop':
                yield st, s[2], None, None
                return
            elif k == 'switch':
                v = self.operand(st, fr, s[1])
                if not is_term(v):
                    v = self.discr(st, v)
                conds = []
                bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}.get(self.local_ty(fr, s[1]))
                for val, tgt in s[2]:
                    if bits and val >= 1 << (bits - 1):
                        val -= 1 << bits        # printed unsigned
                    if z3.is_bool(v):
                        c = z3.Not(v) if val == 0 else v
                    else:
                        c = v == val
                    conds.append(c)
                    ns = self.branch(st, c)
                    if ns is not None:
                        yield ns, tgt, None, None
                if s[3] is not None:
                    c = z3.And([z3.Not(x) for x in conds]) if conds else z3.BoolVal(True)
                    ns = self.branch(st, c)
                    if ns is not None:
                        yield ns, s[3], None, None
                return
            elif k == 'assert':
                v = self.operand(st, fr, s[2])
                good = z3.Not(v) if s[1] else v
                bad = self.branch(st, z3.Not(good))
                if bad is not None:
                    yield bad, None, None, f'{fr.body.name}: assert {s[3]}'
                ok = self.branch(st, good)
                if ok is not None:
                    yield ok, s[4], None, None
                return
            elif k == 'call':
                _, dest, func, args, ret = s
                avals = [self.operand(st, fr, a) for a in args]
                dty = self.place_ty(fr, dest)
                func = self.subst_func(fr, st, func)
                outs = self.do_call(st, fr, func, avals, dty)
                for o in outs:
                    if o.panic is not None:
                        yield o.st, None, None, o.panic
                    elif ret is not None:
                        self.assign(o.st, fr, dest, o.val)
                        yield o.st, ret, None, None
                return
            else:
                raise ToolLimit('statement ' + k)
        raise ToolLimit('block without terminator')

    def subst_func(self, fr, st, func):
        return func

    def do_call(self, st, fr, func, avals, dty):
        if re.match(r'^(move |copy )?_\d+$', func) or func.startswith('(') or func.startswith('move (') or func.startswith('copy ('):
            f = self.operand(st, fr, mir.parse_operand(func))
            return self.call_value(st, f, avals, dty)
        return self.call(st, func, avals, dty)

    def assign(self, st, fr, dest, v):
        cell = fr.cells[dest[1]]
        projs = self.annotate(fr, dest, self.resolve_projs(st, fr, dest[2]))
        st.cells[cell] = self.write_projs(st, st.cells[cell], projs, v)

    # ------------------------------------------------------------ proving
    def prove(self, st, goal, timeout=60000):
        """'proved', 'failed' (with model) or 'unknown'"""
        t0 = time.time()
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return 'proved', None
        r, m = self.inc_check(st.pc, [z3.Not(goal)] + self.qax, min(timeout, 10000))
        if r == z3.unknown:
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(*st.pc)
            s.add(*self.qax)
            s.add(z3.Not(goal))
            r = s.check()
            m = s.model() if r == z3.sat else s.reason_unknown()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'failed', m
        return 'unknown', m

class Frame:
    __slots__ = ('body', 'cells')
    def __init__(self, body):
        self.body, self.cells = body, {}

def k_int(x):
    if isinstance(x, int):
        return x
    if is_term(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
    return None

def strip_cl(s):
    m = re.match(r'\{closure@[^}]*\}', s)
    return m.group() if m else s
