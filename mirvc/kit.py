"""Contract kit: what a property file (props/pNN.py) uses to state and discharge contracts.

A contract is a python function `c(K)` registered with @contract(fn=<canonical MIR name>, crate=...).
It executes the *real* MIR of the function under contract for symbolic arguments (K.run) and states
obligations (K.ob) about every outcome.  Nothing here knows how the function is written."""
import time, json, traceback
import z3
import mir, vc
from vc import VAdt, VRef, VBox, VSeq, VMap, VSymIter, VIter, VClosure, VFn, UNIT, State, Outcome, ToolLimit, is_term, zstr

CRATES = {'lsp': 'ink_lsp_server', 'ana': 'ink_analyzer', 'ir': 'ink_analyzer_ir'}

class LostAnchor(Exception):
    pass

class Contract:
    def __init__(self, f, fn, crate, extra, doc):
        self.f, self.fn, self.crate, self.extra, self.doc = f, fn, crate, extra, doc
        self.name = f.__name__

def registry():
    reg = []
    def contract(fn, crate='lsp', extra=()):
        def deco(f):
            reg.append(Contract(f, fn, crate, tuple(extra), (f.__doc__ or '').strip()))
            return f
        return deco
    return reg, contract

class K:
    def __init__(self, E, crate, con):
        self.E, self.crate, self.con = E, crate, con
        self.obs = []
        self.functions = []
        self.notes = []
        self.reach = 0
        self.spec_ty = {}

    # ---------------------------------------------------------------- running code
    def body(self, fn):
        b = self.crate.bodies.get(fn)
        if b is None:
            raise LostAnchor(fn)
        if fn not in self.functions:
            self.functions.append(fn)
        return b

    def args(self, fn, st, **over):
        b = self.body(fn)
        return [over.get(f'a{i}', None) if f'a{i}' in over else self.E.symval(st, t, f'arg{i}') for i, t in enumerate(b.argtys)]

    def run(self, fn, args, st, panic_free=True):
        """every outcome of the real body; panicking outcomes become failed-or-infeasible obligations"""
        b = self.body(fn)
        outs = self.E.exec_body(b, list(args), st)
        good = []
        np = 0
        for o in outs:
            if o.panic is not None:
                np += 1
                if panic_free:
                    self.ob(f'{fn}: no panic ({str(o.panic)[:120]})', o.st, z3.BoolVal(False))
            else:
                good.append(o)
                self.reach += 1
        if panic_free and np == 0:
            self.obs.append(dict(name=f'{fn}: no path panics ({len(good)} paths)', status='proved', s=0.0))
        return good

    def opaque(self, *names):
        """abstracts functions at call sites by an uninterpreted pure function of their arguments (see K.spec)"""
        for name in names:
            # (name, n): a function of its first n arguments (the others only word a message)
            name, n = name if isinstance(name, tuple) else (name, None)
            def c(E, st, func, args, dty, name=name, n=n):
                self.spec_ty[name] = E.nty(dty)
                yield Outcome(st, E.symval(st, E.nty(dty), 'spec:' + name, [E.term(st, a) for a in args[:n]]))
            self.E.contracts[name] = c

    def spec(self, st, name, args, ty):
        """the same uninterpreted function, for stating postconditions"""
        ty = self.spec_ty.get(name, ty)
        return self.E.symval(st, self.E.nty(ty) if isinstance(ty, str) else ty, 'spec:' + name, [self.E.term(st, self.deref(st, a)) for a in args])

    # ---------------------------------------------------------------- obligations
    def ob(self, name, st, goal, info=''):
        t0 = time.time()
        if goal is True or goal is False:
            goal = z3.BoolVal(goal)
        r, m = self.E.prove(st, goal)
        d = dict(name=name, status=r, s=round(time.time() - t0, 4))
        if r != 'proved':
            d['detail'] = (str(m)[:3000] if m is not None else '') + ('\n' + info if info else '')
            d['goal'] = str(goal)[:800]
        self.obs.append(d)
        return r == 'proved'

    def fail(self, name, detail=''):
        self.obs.append(dict(name=name, status='failed', s=0.0, detail=detail))

    def ok(self, name):
        self.obs.append(dict(name=name, status='proved', s=0.0))

    # ---------------------------------------------------------------- values
    def deref(self, st, v):
        E = self.E
        while True:
            if isinstance(v, VRef):
                v = E.read_ref(st, v)
            elif isinstance(v, VBox):
                v = st.cells[v.cell]
            else:
                return v

    def tyname(self, v):
        if isinstance(v, VAdt):
            return v.ty
        if is_term(v):
            return v.sort().name()
        return type(v).__name__

    def fld(self, st, v, path, of=None):
        """field by (dotted) declared name; `of` names the first struct when its short name is ambiguous"""
        for name in path.split('.'):
            v = self.deref(st, v)
            tn = of or self.tyname(v).split('<')[0]
            of = None
            fs = self.E.defs.structs.get(tn)
            if fs is None:
                raise LostAnchor(f'struct {tn}')
            for i, (n, ty) in enumerate(fs):
                if n == name:
                    v = self.E.get_field(st, v, None, i, ty)
                    break
            else:
                raise LostAnchor(f'{tn}.{name}')
        return self.deref(st, v)

    def t(self, st, v):
        return self.E.term(st, self.deref(st, v))

    def is_(self, st, v, variant, en=None):
        v = self.deref(st, v)
        en = en or self.tyname(v).split('<')[0]
        return self.E.discr(st, v) == self.E.defs.variant_index(en, variant)

    def eq(self, st, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        if isinstance(a, (str,)):
            a = zstr(a)
        if isinstance(b, (str,)):
            b = zstr(b)
        if isinstance(a, int):
            a = z3.IntVal(a)
        if isinstance(b, int):
            b = z3.IntVal(b)
        ta, tb = self.E.term(st, a), self.E.term(st, b)
        if ta.sort() != tb.sort():
            raise ToolLimit(f'comparing {ta.sort()} with {tb.sort()}')
        return ta == tb

    def some(self, st, v):
        """(states with payload) of an Option-like value"""
        return list(self.E.option_cases(st, self.deref(st, v)))

    def cases(self, st, v, enum=None):
        return list(self.E.split_enum(st, self.deref(st, v), enum))

    def payload(self, st, v, variant, i=0):
        return self.E.payload(st, self.deref(st, v), variant, i)

    def has(self, st, m, key):
        return self.E.map_has(st, self.deref(st, m), key)

    def sent(self, st):
        return list(st.ghost.get('sent', []))

    def variant(self, st, v):
        v = self.deref(st, v)
        return v.variant if isinstance(v, VAdt) else None

    def elems(self, st, v):
        """(state, source element, kept, value) for an arbitrary element of a collection built from an iterator"""
        v = self.deref(st, v)
        it = self.E.as_iter(self.E, st, v)
        if it is None:
            raise ToolLimit('elements of ' + self.tyname(v))
        return it

    def parts(self, st, v):
        """the chained iterators a collection was built from, in order"""
        it = v if isinstance(v, (VIter, VSymIter, vc.VSetIter)) else self.elems(st, v)
        return self.E.iter_parts(self.E, st, it)

    def chain(self, st, v, path, of=None):
        """(condition, value) of an optional-field path such as 'text_document?.completion?.snippet_support?' ('?': the field must be Some)"""
        conds = []
        for seg in path.split('.'):
            opt = seg.endswith('?')
            v = self.fld(st, v, seg.rstrip('?'), of=of)
            of = None
            if opt:
                if isinstance(v, VAdt) and v.variant == 'None':
                    # absent: the condition is false, the value arbitrary
                    conds.append(z3.BoolVal(False))
                    v = self.E.symval(st, self.E.nty_from_name(v.ty[7:-1]), f'absent!{len(st.pc)}')
                    continue
                conds.append(self.is_(st, v, 'Some'))
                v = self.deref(st, self.payload(st, v, 'Some'))
        return z3.And(conds) if conds else z3.BoolVal(True), v

    def loop_source(self, fr, st):
        """the map/set a cut loop iterates over, if it is a plain iteration"""
        its = [v for v in (st.cells.get(c) for c in fr.cells.values()) if isinstance(v, vc.VSetIter)]
        ms = {id(v.map): v for v in its if not v.stages}
        return list(ms.values())[0].map if len(ms) == 1 else None

    def json(self, st, v):
        """serde_json::to_value as used by the message constructors"""
        return self.E.symval(st, self.E.nty('serde_json::Value'), 'to_value', [self.E.term(st, self.deref(st, v))])

    def lookup(self, st, m, key):
        return list(self.E.map_lookup(st, self.deref(st, m), key))

def run_contract(con, crates, defs):
    """executes one contract, returns a result dict"""
    primary = [c for c in crates if c.name == CRATES[con.crate]][0]
    E = vc.Engine([primary] + [c for c in crates if c is not primary], defs)
    k = K(E, primary, con)
    t0 = time.time()
    res = dict(contract=con.name, fn=con.fn, crate=con.crate, doc=con.doc)
    try:
        con.f(k)
        res['status'] = 'done'
        if not k.obs:
            res['status'] = 'undecided'
            res['why'] = 'no obligation generated'
        elif k.reach == 0:
            res['status'] = 'undecided'
            res['why'] = 'no reachable outcome (vacuous)'
    except LostAnchor as e:
        res['status'] = 'undecided'
        res['why'] = f'not found in the current tree: {e}'
    except ToolLimit as e:
        res['status'] = 'undecided'
        res['why'] = f'outside the generator: {e}'
    except RecursionError:
        res['status'] = 'undecided'
        res['why'] = 'recursion'
    except Exception as e:
        res['status'] = 'undecided'
        res['why'] = 'internal: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' ' + traceback.format_exc()[-600:]
    res.update(obligations=k.obs, functions=k.functions, inlined=sorted(E.inlined), models=sorted(E.used_models),
               externs=sorted(E.externs), paths=E.stats['paths'], queries=E.stats['queries'], solver_s=round(E.stats['solver_s'], 3),
               reach=k.reach, notes=k.notes, wall=round(time.time() - t0, 3))
    return res
