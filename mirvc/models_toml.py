"""Models of the TOML and JSON value types used by the server (toml_edit, toml, serde_json): tables are maps, values are enums.
Formatting (whitespace, comments, key order) is not modelled.  Assumed contracts on those dependencies."""
import z3

ENUMS = {'TomlEditItem': [('None', 0), ('Value', 1), ('Table', 1), ('ArrayOfTables', 1)],
         'TomlEditValue': [(n, 1) for n in ('String', 'Integer', 'Float', 'Boolean', 'Datetime', 'Array', 'InlineTable')],
         'TomlValue': [(n, 1) for n in ('String', 'Integer', 'Float', 'Boolean', 'Datetime', 'Array', 'Table')]}
ALIASES = {'TomlEditTable': 'BTreeMap<String, TomlEditItem>', 'TomlEditDocumentMut': 'BTreeMap<String, TomlEditItem>',
           'TomlEditInlineTable': 'BTreeMap<String, TomlEditValue>', 'TomlTable': 'BTreeMap<String, TomlValue>'}
PAYLOAD = {('TomlEditItem', 'Value'): 'TomlEditValue', ('TomlEditItem', 'Table'): 'BTreeMap<String, TomlEditItem>',
           ('TomlEditValue', 'InlineTable'): 'BTreeMap<String, TomlEditValue>', ('TomlEditValue', 'Array'): 'TomlEditArray',
           ('TomlEditValue', 'String'): 'String', ('TomlEditValue', 'Boolean'): 'bool',
           ('TomlValue', 'String'): 'String', ('TomlValue', 'Table'): 'BTreeMap<String, TomlValue>', ('TomlValue', 'Boolean'): 'bool',
           ('TomlValue', 'Array'): 'Vec<TomlValue>',
           ('Value', 'String'): 'String', ('Value', 'Object'): 'BTreeMap<String, Value>', ('Value', 'Bool'): 'bool', ('Value', 'Number'): 'Number',
           ('Value', 'Array'): 'Vec<Value>'}

def defs(d):
    d.enums.update({k: list(v) for k, v in ENUMS.items()})
    d.aliases.update(ALIASES)

def register(E):
    from models import deref, mk
    from vc import VAdt, VRef, VMap, UNIT, Outcome, ToolLimit, is_term, zstr
    M, T = E.models, E.trait_models

    def model(*names):
        def deco(f):
            for n in names:
                M[n] = f
            return f
        return deco

    TB = ['TomlEditTable', 'TomlEditInlineTable', 'TomlEditDocumentMut']

    def visible(E, st, v):
        """an entry holding Item::None counts as absent"""
        if (isinstance(v, VAdt) and v.ty == 'TomlEditItem') or (is_term(v) and v.sort().name() == 'TomlEditItem'):
            return E.discr(st, v) != 0
        return z3.BoolVal(True)

    def lookup(E, st, m, k):
        """(state, value or None): one state per possible answer where the table has no conflicting updates"""
        m = E.as_map(st, m)
        for u in reversed(m.ups):
            e = z3.simplify(E.term(st, u[0]) == E.term(st, k))
            if z3.is_true(e):
                break
            if not z3.is_false(e):
                u = None
                break
        else:
            u = 'base'
        if u == 'base' or (u is not None and u[1]):
            if u == 'base':
                if m.base is None:
                    yield st, None
                    return
                v = E.map_base_val(st, m, k)
                c = z3.And(E.map_base_has(st, m, k), visible(E, st, v))
            else:
                v = u[2]
                c = visible(E, st, v)
            a = E.branch(st, c)
            b = E.branch(st, z3.Not(c))
            if a is not None:
                yield a, v
            if b is not None:
                yield b, None
            return
        for s, p, v in E.map_lookup(st, m, k):
            if not p:
                yield s, None
                continue
            c = visible(E, s, v)
            a = E.branch(s, c)
            if a is not None:
                yield a, v
            b = E.branch(s, z3.Not(c))
            if b is not None:
                yield b, None
    E.toml_lookup = lambda st, m, k: lookup(E, st, E.as_map(st, m), zstr(k) if isinstance(k, str) else k)

    @model(*[f'{t}::get_mut' for t in TB])
    def get_mut(E, st, func, args, dty):
        r = args[0]
        k = deref(E, st, args[1])
        for s, v in lookup(E, st, E.as_map(st, E.read_ref(st, r)), k):
            if v is None:
                yield Outcome(s, mk(E, dty, 'None'))
                continue
            mm = E.as_map(s, E.read_ref(s, r))
            E.write_ref(s, r, (), VMap(mm.base, mm.kty, mm.vty, mm.ups + ((k, True, v),)))
            yield Outcome(s, mk(E, dty, 'Some', VRef(r.cell, r.projs + (('mapval', k),))))

    @model(*[f'{t}::get' for t in TB])
    def get(E, st, func, args, dty):
        k = deref(E, st, args[1])
        for s, v in lookup(E, st, E.as_map(st, deref(E, st, args[0])), k):
            yield Outcome(s, mk(E, dty, 'None') if v is None else mk(E, dty, 'Some', v))

    @model(*[f'{t}::contains_key' for t in TB])
    def contains_key(E, st, func, args, dty):
        k = deref(E, st, args[1])
        for s, v in lookup(E, st, E.as_map(st, deref(E, st, args[0])), k):
            yield Outcome(s, z3.BoolVal(v is not None))

    def upd(present):
        def f(E, st, func, args, dty):
            """the previous entry, which is returned, is left open"""
            r = args[0]
            m = E.as_map(st, E.read_ref(st, r))
            k = deref(E, st, args[1])
            v = args[2] if present else None
            E.write_ref(st, r, (), VMap(m.base, m.kty, m.vty, m.ups + ((k, present, v),)))
            yield Outcome(st, E.fresh(st, E.nty(dty), 'previous'))
        return f
    for t in TB:
        M[f'{t}::insert'] = upd(True)
        M[f'{t}::remove'] = upd(False)
        M[f'{t}::new'] = lambda E, st, func, args, dty: [Outcome(st, VMap(None, 'String', 'TomlEditValue' if 'Inline' in func else 'TomlEditItem'))]

    @model('TomlEditTable::into_inline_table')
    def into_inline(E, st, func, args, dty):
        m = E.as_map(st, deref(E, st, args[0]))
        if m.base is None:
            raise ToolLimit('into_inline_table of a new table')
        # every entry becomes the corresponding value (entries that are not representable as values are outside the model)
        base = E.uf('inline_base', [m.base], E.sort(E.nty('BTreeMap<String, TomlEditValue>')))
        ups = []
        for k, p, v in m.ups:
            if not p:
                ups.append((k, False, None))
            else:
                ups.append((k, True, item_value(E, st, v)))
        yield Outcome(st, VMap(base, 'String', 'TomlEditValue', tuple(ups)))

    def item_value(E, st, v):
        v = deref(E, st, v)
        if isinstance(v, VAdt) and v.variant == 'Value':
            return v.fields[0]
        return E.symval(st, E.nty('TomlEditValue'), 'item_value', [E.term(st, v)])

    def downcast_mut(path):
        """as_x_mut: a reference into the value when it has the given (nested) variants"""
        def f(E, st, func, args, dty):
            r = args[0]
            work = [(st, r.projs)]
            for en, vn in path:
                nxt = []
                for s, pr in work:
                    v = E.read_ref(s, VRef(r.cell, pr))
                    c = E.discr(s, v) == E.defs.variant_index(en, vn)
                    a = E.branch(s, c)
                    b = E.branch(s, z3.Not(c))
                    if b is not None:
                        yield Outcome(b, mk(E, dty, 'None'))
                    if a is not None:
                        nxt.append((a, pr + (('downcast', vn), ('field', 0, PAYLOAD[(en, vn)]))))
                work = nxt
            for s, pr in work:
                x = E.read_ref(s, VRef(r.cell, pr))
                if 'Map<' in PAYLOAD[path[-1]] and not isinstance(x, VMap):
                    E.write_ref(s, VRef(r.cell, pr), (), E.as_map(s, x))
                yield Outcome(s, mk(E, dty, 'Some', VRef(r.cell, pr)))
        return f
    M['TomlEditItem::as_table_mut'] = downcast_mut([('TomlEditItem', 'Table')])
    M['TomlEditItem::as_array_mut'] = downcast_mut([('TomlEditItem', 'Value'), ('TomlEditValue', 'Array')])
    M['TomlEditItem::as_value_mut'] = downcast_mut([('TomlEditItem', 'Value')])

    def downcast(*path):
        def f(E, st, func, args, dty):
            work = [(st, deref(E, st, args[0]))]
            for en, vn in path:
                nxt = []
                for s, v in work:
                    c = E.discr(s, v) == E.defs.variant_index(en, vn)
                    a = E.branch(s, c)
                    b = E.branch(s, z3.Not(c))
                    if b is not None:
                        yield Outcome(b, mk(E, dty, 'None'))
                    if a is not None:
                        nxt.append((a, deref(E, a, E.get_field(a, v, vn, 0, PAYLOAD[(en, vn)]))))
                work = nxt
            for s, v in work:
                yield Outcome(s, mk(E, dty, 'Some', v))
        return f
    M['TomlEditItem::as_table'] = downcast(('TomlEditItem', 'Table'))
    M['TomlEditItem::as_str'] = downcast(('TomlEditItem', 'Value'), ('TomlEditValue', 'String'))
    M['TomlEditValue::as_str'] = downcast(('TomlEditValue', 'String'))
    M['TomlEditValue::as_inline_table'] = downcast(('TomlEditValue', 'InlineTable'))
    M['TomlValue::as_str'] = downcast(('TomlValue', 'String'))
    M['TomlValue::as_table'] = downcast(('TomlValue', 'Table'))
    M['TomlValue::as_bool'] = downcast(('TomlValue', 'Boolean'))
    M['serde_json::Value::as_str'] = downcast(('Value', 'String'))
    M['serde_json::Value::as_object'] = downcast(('Value', 'Object'))
    M['serde_json::Value::as_bool'] = downcast(('Value', 'Bool'))

    @model('serde_json::Value::as_u64')
    def as_u64(E, st, func, args, dty):
        v = deref(E, st, args[0])
        for s in [x for x in (E.branch(st, E.discr(st, v) == E.defs.variant_index('Value', 'Number')),) if x is not None]:
            n = E.get_field(s, v, 'Number', 0, 'Number')
            t = E.term(s, n)
            isu = E.uf('json_is_u64', [t], z3.BoolSort())
            a = E.branch(s, isu)
            if a is not None:
                x = E.uf('json_u64', [t], z3.IntSort())
                a.assume(z3.And(x >= 0, x < 2**64))
                yield Outcome(a, mk(E, dty, 'Some', x))
            b = E.branch(s, z3.Not(isu))
            if b is not None:
                yield Outcome(b, mk(E, dty, 'None'))
        b = E.branch(st, E.discr(st, v) != E.defs.variant_index('Value', 'Number'))
        if b is not None:
            yield Outcome(b, mk(E, dty, 'None'))

    def value_from(E, st, func, args, dty):
        v = deref(E, st, args[0])
        if is_term(v) and v.sort() == z3.StringSort():
            return [Outcome(st, VAdt('TomlEditValue', 'String', {0: v}))]
        if is_term(v) and v.sort() == z3.BoolSort():
            return [Outcome(st, VAdt('TomlEditValue', 'Boolean', {0: v}))]
        return NotImplemented
    M['<TomlEditValue as From>::from'] = value_from

    @model('TomlEditArray::retain')
    def retain(E, st, func, args, dty):
        """the predicate decides element by element; recorded for the contract"""
        old = E.read_ref(st, args[0])
        new = E.symval(st, E.nty('TomlEditArray'), 'retained', [E.term(st, old), E.term(st, args[1])])
        st.ghost.setdefault('retain', []).append((args[0], old, args[1], new))
        E.write_ref(st, args[0], (), new)
        yield Outcome(st, UNIT)
