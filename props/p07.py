"""P07: project commands produce exactly the promised edits."""
import z3
import kit
from kit import *
CONTRACTS, contract = kit.registry()
ASSUMPTIONS = ['the toml_edit and serde_json types behave as their models (tables are maps, entries holding Item::None are absent); formatting is outside the model',
               'a path joined with a component has that component as its last and the path as its parent; file system queries are functions of the path within one call',
               'Url::join of different file names to one root gives different uris',
               'a Cargo.toml file is smaller than 4 GiB; a .rs document is not its own Cargo.toml',
               'into_inline_table keeps every entry of a table (as a value)',
               'Analysis::{migrate,extract}, new_project, to_lsp::range, find_cargo_toml are pure functions of their arguments at call sites']
C = 'dispatch::handlers::command::'
R = 'dispatch::handlers::request::'
LT = 'lsp_types::'
TI = 'TomlEditItem'

# ------------------------------------------------------------------------------------------------ Cargo.toml edits
def captured_doc(K):
    """the document whose text is returned"""
    def to_string(E, st, func, args, dty):
        v = args[0]
        while isinstance(v, VRef):
            v = E.read_ref(st, v)
        st.ghost = dict(st.ghost, doc=v)
        yield Outcome(st, z3.String('rendered document'))
    K.E.contracts['<TomlEditDocumentMut as ToString>::to_string'] = to_string

def parsed(K, s, text):
    """the uninterpreted parse result of the given text"""
    return K.E.symval(s, K.E.nty('Result<BTreeMap<String, TomlEditItem>, TomlError>'), 'ext:core::str::parse', [K.t(s, text)])

def same_entry(K, s, new, old, k, what):
    """visible entry k of two tables agrees"""
    E = K.E
    for s2, v1 in E.toml_lookup(s, new, k):
        for s3, v0 in E.toml_lookup(s2, old, k):
            if v1 is None or v0 is None:
                K.ob(what + ': present before iff after', s3, z3.BoolVal((v1 is None) == (v0 is None)))
            else:
                K.ob(what + ': unchanged', s3, E.eq_formula(E, s3, v1, v0))

def table_of(K, s, item):
    return K.payload(s, item, 'Table')

def migrate(K, part):
    E = K.E
    captured_doc(K)
    fn = C + 'migrate_cargo_toml'
    st = State()
    text, = a = K.args(fn, st)
    n = 0
    anyk = z3.String('any key')
    for o in K.run(fn, a, st):
        s = o.st
        d0 = parsed(K, s, text)
        b = E.branch(s, K.is_(s, d0, 'Err'))
        if b is not None:
            K.ob('not TOML: an error', b, K.is_(b, o.val, 'Err'))
        s1 = E.branch(s, K.is_(s, d0, 'Ok'))
        if s1 is None:
            continue
        doc0 = K.deref(s1, K.payload(s1, d0, 'Ok'))
        # an answer exactly when there is an ink dependency in a [dependencies] table
        for s2, deps0 in E.toml_lookup(s1, doc0, 'dependencies'):
            b = s2 if deps0 is None else E.branch(s2, z3.Not(K.is_(s2, deps0, 'Table', TI)))
            if b is not None:
                K.ob('no table of dependencies: an error', b, K.is_(b, o.val, 'Err'))
            if deps0 is None:
                continue
            s2 = E.branch(s2, K.is_(s2, deps0, 'Table', TI))
            if s2 is None:
                continue
            t0 = table_of(K, s2, deps0)
            for s3, ink0 in E.toml_lookup(s2, t0, 'ink'):
                if ink0 is None:
                    K.ob('no ink dependency: an error', s3, K.is_(s3, o.val, 'Err'))
                    continue
                K.ob('otherwise an answer', s3, K.is_(s3, o.val, 'Ok'))
                if K.variant(s3, o.val) != 'Ok':
                    continue
                n += 1
                part(K, s3, s3.ghost['doc'], doc0, t0, ink0, anyk, o.val)
    if not n:
        raise LostAnchor('migration never succeeds')

@contract(C + 'migrate_cargo_toml')
def migrate_rest(K):
    """answers the edited document; an error exactly without an ink dependency; every table other than the three edited ones as before"""
    def part(K, s, doc1, doc0, t0, ink0, anyk, val):
        K.ob('answers the edited document', s, K.t(s, K.payload(s, val, 'Ok')) == z3.String('rendered document'))
        k = s.fork()
        k.assume(z3.And(*[anyk != zstr(x) for x in ('dependencies', 'dev-dependencies', 'features')]))
        same_entry(K, k, doc1, doc0, anyk, 'any other table')
    migrate(K, part)

@contract(C + 'migrate_cargo_toml')
def migrate_dependencies(K):
    """ink at 5.0.0 without workspace inheritance and otherwise as it was, scale dependencies gone, every other dependency as before"""
    migrate(K, lambda K, s, doc1, doc0, t0, ink0, anyk, val: deps(K, s, doc1, t0, ink0, anyk))

@contract(C + 'migrate_cargo_toml')
def migrate_dev_dependencies(K):
    """ink_e2e (if any) at 5.0.0, every other dev-dependency as before"""
    migrate(K, lambda K, s, doc1, doc0, t0, ink0, anyk, val: devs(K, s, doc1, doc0, anyk))

@contract(C + 'migrate_cargo_toml')
def migrate_features(K):
    """scale/std and scale-info/std dropped from the std feature, everything else as before"""
    migrate(K, lambda K, s, doc1, doc0, t0, ink0, anyk, val: feats(K, s, doc1, doc0, anyk))

def deps(K, s, doc1, t0, ink0, anyk):
    E = K.E
    for s2, deps1 in E.toml_lookup(s, doc1, 'dependencies'):
        K.ob('dependencies stay a table', s2, z3.BoolVal(deps1 is not None) if deps1 is None else K.is_(s2, deps1, 'Table', TI))
        if deps1 is None:
            continue
        t1 = table_of(K, s2, deps1)
        k = s2.fork()
        k.assume(z3.And(*[anyk != zstr(x) for x in ('ink', 'scale', 'scale-info')]))
        same_entry(K, k, t1, t0, anyk, 'any other dependency')
        for gone in ('scale', 'scale-info'):
            for s3, v in E.toml_lookup(s2, t1, gone):
                K.ob(f'{gone} is gone', s3, z3.BoolVal(v is None))
        for s3, ink1 in E.toml_lookup(s2, t1, 'ink'):
            if ink1 is None:
                K.fail('ink dependency lost')
                continue
            K.ob('ink is an inline table', s3, z3.And(K.is_(s3, ink1, 'Value', TI), K.is_(s3, K.payload(s3, ink1, 'Value'), 'InlineTable', 'TomlEditValue')))
            m = K.payload(s3, K.payload(s3, ink1, 'Value'), 'InlineTable')
            for s4, v in E.toml_lookup(s3, m, 'version'):
                K.ob('ink version 5.0.0', s4, z3.BoolVal(False) if v is None else z3.And(K.is_(s4, v, 'String', 'TomlEditValue'), K.t(s4, K.payload(s4, v, 'String')) == zstr('5.0.0')))
            for s4, v in E.toml_lookup(s3, m, 'workspace'):
                K.ob('no workspace inheritance', s4, z3.BoolVal(v is None))
            # the entries it had before
            for form, sel in (('Table', K.is_(s3, ink0, 'Table', TI)), ('Inline', z3.And(K.is_(s3, ink0, 'Value', TI), K.is_(s3, K.payload(s3, ink0, 'Value'), 'InlineTable', 'TomlEditValue')))):
                b = E.branch(s3, sel)
                if b is None:
                    continue
                old = table_of(K, b, ink0) if form == 'Table' else K.payload(b, K.payload(b, ink0, 'Value'), 'InlineTable')
                if form == 'Table':
                    old = E.uf('inline_base', [K.t(b, old)], E.sort(E.nty('BTreeMap<String, TomlEditValue>')))
                    # default-features: visible in the table iff in its inline form
                    tab = table_of(K, b, ink0)
                    for c, v in E.toml_lookup(b, tab, 'default-features'):
                        if v is None:
                            default_off(K, c, m)
                else:
                    for c, v in E.toml_lookup(b, old, 'default-features'):
                        if v is None:
                            default_off(K, c, m)
                        else:
                            for c2, v2 in E.toml_lookup(c, m, 'default-features'):
                                K.ob('default-features as it was', c2, z3.BoolVal(False) if v2 is None else E.eq_formula(E, c2, v2, v))
                k = b.fork()
                k.assume(z3.And(*[anyk != zstr(x) for x in ('version', 'workspace', 'default-features')]))
                same_entry(K, k, m, old, anyk, f'other settings of the ink dependency ({form})')
            plain = E.branch(s3, z3.And(K.is_(s3, ink0, 'Value', TI), z3.Not(K.is_(s3, K.payload(s3, ink0, 'Value'), 'InlineTable', 'TomlEditValue'))))
            if plain is not None:
                default_off(K, plain, m)
                k = plain.fork()
                k.assume(z3.And(*[anyk != zstr(x) for x in ('version', 'default-features')]))
                for c, v in E.toml_lookup(k, m, anyk):
                    K.ob('nothing else in the ink dependency', c, z3.BoolVal(v is None))

def default_off(K, s, m):
    for c, v in K.E.toml_lookup(s, m, 'default-features'):
        K.ob('default-features switched off', c, z3.BoolVal(False) if v is None else z3.And(K.is_(c, v, 'Boolean', 'TomlEditValue'), z3.Not(K.t(c, K.payload(c, v, 'Boolean')))))

def sub(K, s, doc1, doc0, name, anyk):
    """a table edited in one entry only: yields (state, new table, old table) where it is a table; otherwise it is unchanged"""
    E = K.E
    for s2, v0 in E.toml_lookup(s, doc0, name):
        b = s2 if v0 is None else E.branch(s2, z3.Not(K.is_(s2, v0, 'Table', TI)))
        if b is not None:
            same_entry(K, b, doc1, doc0, zstr(name), f'{name} (no table)')
        if v0 is None:
            continue
        s2 = E.branch(s2, K.is_(s2, v0, 'Table', TI))
        if s2 is None:
            continue
        for s3, v1 in E.toml_lookup(s2, doc1, name):
            K.ob(f'{name} stays a table', s3, z3.BoolVal(False) if v1 is None else K.is_(s3, v1, 'Table', TI))
            if v1 is not None:
                yield s3, table_of(K, s3, v1), table_of(K, s3, v0)

def devs(K, s, doc1, doc0, anyk):
    E = K.E
    for s2, t1, t0 in sub(K, s, doc1, doc0, 'dev-dependencies', anyk):
        k = s2.fork()
        k.assume(anyk != zstr('ink_e2e'))
        same_entry(K, k, t1, t0, anyk, 'any other dev-dependency')
        for s3, v0 in E.toml_lookup(s2, t0, 'ink_e2e'):
            for s4, v1 in E.toml_lookup(s3, t1, 'ink_e2e'):
                K.ob('ink_e2e iff before', s4, z3.BoolVal((v0 is None) == (v1 is None)))
                if v1 is not None:
                    vv = K.payload(s4, v1, 'Value')
                    K.ob('ink_e2e 5.0.0', s4, z3.And(K.is_(s4, v1, 'Value', TI), K.is_(s4, vv, 'String', 'TomlEditValue'), K.t(s4, K.payload(s4, vv, 'String')) == zstr('5.0.0')))

def feats(K, s, doc1, doc0, anyk):
    E = K.E
    for s2, t1, t0 in sub(K, s, doc1, doc0, 'features', anyk):
        k = s2.fork()
        k.assume(anyk != zstr('std'))
        same_entry(K, k, t1, t0, anyk, 'any other feature')
        for s3, v0 in E.toml_lookup(s2, t0, 'std'):
            arr = None if v0 is None else z3.And(K.is_(s3, v0, 'Value', TI), K.is_(s3, K.payload(s3, v0, 'Value'), 'Array', 'TomlEditValue'))
            b = s3 if v0 is None else E.branch(s3, z3.Not(arr))
            if b is not None:
                same_entry(K, b, t1, t0, zstr('std'), 'std feature (no list)')
            if v0 is None:
                continue
            s4 = E.branch(s3, arr)
            if s4 is None:
                continue
            rs = s4.ghost.get('retain', [])
            K.ob('std feature list filtered once', s4, z3.BoolVal(len(rs) == 1))
            if len(rs) != 1:
                continue
            ref, old, pred, new = rs[0]
            K.ob('it is the std feature list', s4, K.t(s4, old) == K.t(s4, K.payload(s4, K.payload(s4, v0, 'Value'), 'Array')))
            for s5, v1 in E.toml_lookup(s4, t1, 'std'):
                K.ob('the filtered list replaces it', s5, z3.BoolVal(False) if v1 is None else K.eq(s5, K.payload(s5, K.payload(s5, v1, 'Value'), 'Array'), new))
            if K.con.__dict__.setdefault('retained', 0) < 1:
                K.con.retained = 1
                # an arbitrary element of the list
                f = E.symval(s4, E.nty('TomlEditValue'), 'any feature')
                for q in E.call_value(s4.fork(), pred, [f]):
                    scale = z3.And(K.is_(q.st, f, 'String', 'TomlEditValue'), z3.Or(*[K.t(q.st, K.payload(q.st, f, 'String')) == zstr(x) for x in ('scale/std', 'scale-info/std')]))
                    K.ob('kept unless it is scale/std or scale-info/std', q.st, q.val == z3.Not(scale))

@contract(C + 'add_dependency_to_cargo_toml')
def add_dependency(K):
    """adds the dependency under its name, every other entry as before; an error iff there is no [dependencies] table"""
    E = K.E
    captured_doc(K)
    fn = C + 'add_dependency_to_cargo_toml'
    st = State()
    text, name, item = a = K.args(fn, st)
    st.assume(E.discr(st, item) != 0)
    anyk = z3.String('any key')
    n = 0
    for o in K.run(fn, a, st):
        s = o.st
        d0 = parsed(K, s, text)
        b = E.branch(s, K.is_(s, d0, 'Err'))
        if b is not None:
            K.ob('not TOML: an error', b, K.is_(b, o.val, 'Err'))
        s = E.branch(s, K.is_(s, d0, 'Ok'))
        if s is None:
            continue
        doc0 = K.deref(s, K.payload(s, d0, 'Ok'))
        for s2, deps0 in E.toml_lookup(s, doc0, 'dependencies'):
            b = s2 if deps0 is None else E.branch(s2, z3.Not(K.is_(s2, deps0, 'Table', TI)))
            if b is not None:
                K.ob('no dependencies table: an error', b, K.is_(b, o.val, 'Err'))
            if deps0 is None:
                continue
            s3 = E.branch(s2, K.is_(s2, deps0, 'Table', TI))
            if s3 is None:
                continue
            K.ob('otherwise an answer', s3, K.is_(s3, o.val, 'Ok'))
            if K.variant(s3, o.val) != 'Ok':
                continue
            n += 1
            K.ob('answers the edited document', s3, K.t(s3, K.payload(s3, o.val, 'Ok')) == z3.String('rendered document'))
            doc1 = s3.ghost['doc']
            k = s3.fork()
            k.assume(anyk != zstr('dependencies'))
            same_entry(K, k, doc1, doc0, anyk, 'any other table')
            for s4, deps1 in E.toml_lookup(s3, doc1, 'dependencies'):
                K.ob('dependencies stay a table', s4, z3.BoolVal(False) if deps1 is None else K.is_(s4, deps1, 'Table', TI))
                if deps1 is None:
                    continue
                t1, t0 = table_of(K, s4, deps1), table_of(K, s4, deps0)
                k = s4.fork()
                k.assume(anyk != K.t(k, name))
                same_entry(K, k, t1, t0, anyk, 'any other dependency')
                for s5, v in E.toml_lookup(s4, t1, K.t(s4, name)):
                    K.ob('the dependency is there', s5, z3.BoolVal(False) if v is None else K.eq(s5, v, item))
    if not n:
        raise LostAnchor('never succeeds')

# ------------------------------------------------------------------------------------------------ where Cargo.toml is
@contract('utils::find_cargo_toml')
def find_cargo_toml(K):
    """the Cargo.toml file in the directory of the file or its nearest ancestor directory (ten levels)"""
    E = K.E
    fn = 'utils::find_cargo_toml'
    st = State()
    p, = a = K.args(fn, st)
    P = E.path
    t = P['term'](st, p)
    st.assume(z3.And(P['has_parent'](st, t), P['has_name'](st, t)))
    for o in K.run(fn, a, st):
        s = o.st
        d = P['parent'](s, t)
        cands = []
        for i in range(11):
            cands.append(P['join'](s, d, zstr('Cargo.toml')))
            d = z3.If(P['has_name'](s, d), P['parent'](s, d), d)
        isf = [P['is_file'](s, c) for c in cands]
        if K.variant(s, o.val) == 'Some':
            r = K.t(s, K.payload(s, o.val, 'Some'))
            K.ob('the nearest one', s, z3.Or(*[z3.And(r == cands[i], isf[i], *[z3.Not(f) for f in isf[:i]]) for i in range(11)]))
        else:
            K.ob('none only if there is none', s, z3.And(*[z3.Not(f) for f in isf]))

@contract(R + 'parse_range')
def parse_range(K):
    """the range with exactly the given start and end when both are 32-bit offsets in order; none otherwise"""
    E = K.E
    fn = R + 'parse_range'
    st = State()
    v, = a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        obj = K.is_(s, v, 'Object', 'Value')
        m = E.as_map(s, K.payload(s, v, 'Object'))
        get = {}
        conds = [obj]
        for k in ('start', 'end'):
            x = E.map_base_val(s, m, zstr(k))
            nb = E.term(s, E.get_field(s, x, 'Number', 0, 'Number'))
            get[k] = E.uf('json_u64', [nb], z3.IntSort())
            conds += [E.map_base_has(s, m, zstr(k)), K.is_(s, x, 'Number', 'Value'), E.uf('json_is_u64', [nb], z3.BoolSort()), get[k] < 2**32]
        conds.append(get['start'] <= get['end'])
        K.ob('a range exactly for ordered 32-bit offsets', s, K.is_(s, o.val, 'Some') == z3.And(*conds))
        if K.variant(s, o.val) == 'Some':
            a0, b0 = E.tr_parts(E, s, K.payload(s, o.val, 'Some'))
            K.ob('exactly these offsets', s, z3.And(a0 == get['start'], b0 == get['end']))

# ------------------------------------------------------------------------------------------------ commands
@contract(C + 'handle_create_project')
def create(K):
    """lib.rs and Cargo.toml of the new project under the root, nothing else; an error iff the name is rejected or the root cannot be joined"""
    E = K.E
    K.opaque('ink_analyzer::new_project')
    fn = C + 'handle_create_project'
    st = State()
    name, root = a = K.args(fn, st)
    n = 0
    for o in K.run(fn, a, st):
        s = o.st
        v5 = z3.IntVal(E.defs.variant_index('Version', 'V5'))
        prj = K.spec(s, 'ink_analyzer::new_project', [name, v5], 'Result<Project, Error>')
        if K.variant(s, o.val) == 'Ok':
            n += 1
            r = K.payload(s, o.val, 'Ok')
            F = lambda f: K.fld(s, r, f, of='lsp-server::CreateProjectResponse')
            K.ob('the requested name', s, K.eq(s, F('name'), name))
            K.ob('the requested root', s, K.eq(s, F('uri'), root))
            K.ob('the name is accepted', s, K.is_(s, prj, 'Ok'))
            files = E.as_map(s, F('files'))
            p = K.payload(s, prj, 'Ok')
            lib = K.t(s, K.fld(s, p, 'lib.plain', of='analyzer::Project'))
            cargo = K.t(s, K.fld(s, p, 'cargo.plain', of='analyzer::Project'))
            # joining different file names to one root gives different uris
            s.assume(joined(K, s, root, 'lib.rs') != joined(K, s, root, 'Cargo.toml'))
            entries(K, s, files, [(joined(K, s, root, 'lib.rs'), lib), (joined(K, s, root, 'Cargo.toml'), cargo)])
        else:
            b = s
            K.ob('an error only for rejected names or roots', b, z3.Or(K.is_(b, prj, 'Err'), z3.Not(joinable(K, b, root, 'lib.rs')), z3.Not(joinable(K, b, root, 'Cargo.toml'))))
    if not n:
        raise LostAnchor('never succeeds')

def jres(K, s, root, name):
    key = [k for k in K.E.externs if k.endswith('Url::join')]
    if not key:
        raise LostAnchor('Url::join')
    return K.E.symval(s, K.E.nty('Result<Url, ParseError>'), 'ext:' + key[0], [K.t(s, root), zstr(name)])
def joined(K, s, root, name):
    return K.t(s, K.payload(s, jres(K, s, root, name), 'Ok'))
def joinable(K, s, root, name):
    return K.is_(s, jres(K, s, root, name), 'Ok', 'Result')

def entries(K, s, m, want):
    """a map of exactly these (key, value) entries"""
    E = K.E
    K.ob('exactly these files', s, z3.BoolVal(m.base is None and len(m.ups) == len(want) and all(u[1] for u in m.ups)))
    for k, v in want:
        K.ob('file present', s, K.has(s, m, k))
        for s2, present, got in K.lookup(s, m, k):
            if present:
                K.ob('file content', s2, K.eq(s2, got, v) if not callable(v) else v(s2, got))

# -- migrate / extract
SN = 'dispatch::Snapshot'
NOOPS = ['to_lsp::range', 'utils::find_cargo_toml', 'command::migrate_cargo_toml', 'Analysis::migrate', 'Analysis::extract', 'utils::position_encoding',
         'PositionTranslationContext::new', 'command::package_name', 'command::add_dependency_to_cargo_toml', 'std::fs::read_to_string', 'Url::to_file_path', 'Url::from_file_path']

def whole(K, s, text, caps):
    """the translated range of a whole text"""
    ctx = K.spec(s, 'PositionTranslationContext::new', [text, K.spec(s, 'utils::position_encoding', [caps], 'PositionEncodingKind')], 'PositionTranslationContext')
    ln = z3.Length(K.t(s, text))
    s.assume(ln < 2**32)
    return K.spec(s, 'to_lsp::range', [K.E.mk_range(K.E, s, z3.IntVal(0), ln), ctx], 'Option<Range>')

def cargo_path(K, s, uri):
    """(condition, path) of the Cargo.toml for the document"""
    fp = K.spec(s, 'Url::to_file_path', [uri], 'Result<PathBuf, ()>')
    fc = K.spec(s, 'utils::find_cargo_toml', [K.payload(s, fp, 'Ok')], 'Option<PathBuf>')
    return z3.And(K.is_(s, fp, 'Ok'), K.is_(s, fc, 'Some')), K.payload(s, fc, 'Some')

def text_edits(K, s, coll, src, ctx, what, tail=None):
    """exactly the translatable edits of src with their texts, in order"""
    E = K.E
    it = K.elems(s, coll)
    if not isinstance(it, VSymIter):
        raise ToolLimit('edits: ' + type(it).__name__)
    K.ob(f'{what}: all edits of the analyzer', s, it.src == K.t(s, src))
    for s3, item, kept, val in E.iter_elem(E, s, it):
        want = K.spec(s3, 'to_lsp::range', [K.fld(s3, item, 'range', of='analyzer::TextEdit'), ctx], 'Option<Range>')
        K.ob(f'{what}: included iff translatable', s3, z3.BoolVal(kept) == K.is_(s3, want, 'Some'))
        if kept:
            K.ob(f'{what}: place', s3, K.eq(s3, K.fld(s3, val, 'range', of=LT + 'TextEdit'), K.payload(s3, want, 'Some')))
            K.ob(f'{what}: text', s3, K.eq(s3, K.fld(s3, val, 'new_text', of=LT + 'TextEdit'), K.fld(s3, item, 'text', of='analyzer::TextEdit')))

@contract(C + 'handle_migrate_project')
def migrate_project(K):
    """the analyzer's migration edits for the document and the migrated text over the whole of its Cargo.toml"""
    E = K.E
    K.opaque(*NOOPS)
    fn = C + 'handle_migrate_project'
    st = State()
    uri, snaps, caps = a = K.args(fn, st)
    n = 0
    for o in K.run(fn, a, st):
        s = o.st
        if K.variant(s, o.val) != 'Ok':
            continue
        n += 1
        r = K.payload(s, o.val, 'Ok')
        F = lambda f: K.fld(s, r, f, of='lsp-server::MigrateProjectResponse')
        K.ob('the requested document', s, K.eq(s, F('uri'), uri))
        key = E.url_str(s, K.t(s, uri))
        K.ob('only Rust files', s, z3.SuffixOf(zstr('.rs'), key))
        c, path = cargo_path(K, s, uri)
        K.ob('its Cargo.toml was found', s, c)
        cu = K.spec(s, 'Url::from_file_path', [path], 'Result<Url, ()>')
        K.ob('and has a uri', s, K.is_(s, cu, 'Ok'))
        rd = K.spec(s, 'std::fs::read_to_string', [path], 'Result<String, Error>')
        K.ob('and can be read', s, K.is_(s, rd, 'Ok'))
        text = K.payload(s, rd, 'Ok')
        mg = K.spec(s, 'command::migrate_cargo_toml', [text], 'Result<String, Error>')
        K.ob('and migrated', s, K.is_(s, mg, 'Ok'))
        for s2, present, snap in K.lookup(s, snaps, key):
            K.ob('only open documents', s2, z3.BoolVal(present))
            if not present:
                continue
            src = K.spec(s2, 'Analysis::migrate', [K.fld(s2, snap, 'analysis')], 'Vec<TextEdit>')
            # the document is not its own Cargo.toml (it ends in .rs)
            s2.assume(K.t(s2, K.payload(s2, cu, 'Ok')) != K.t(s2, uri))
            edits = E.as_map(s2, K.fld(s2, r, 'edits', of='lsp-server::MigrateProjectResponse'))
            K.ob('edits to exactly these two files', s2, z3.BoolVal(edits.base is None and len(edits.ups) == 2 and all(u[1] for u in edits.ups)))
            for s3, p3, v in K.lookup(s2, edits, K.t(s2, uri)):
                K.ob('edits to the document', s3, z3.BoolVal(p3))
                if p3:
                    text_edits(K, s3, v, src, K.fld(s3, snap, 'context'), 'migration')
            for s3, p3, v in K.lookup(s2, edits, K.t(s2, K.payload(s2, cu, 'Ok'))):
                K.ob('edits to Cargo.toml', s3, z3.BoolVal(p3))
                if p3:
                    replace_all(K, s3, v, text, K.payload(s3, mg, 'Ok'), caps)
    if not n:
        raise LostAnchor('migration never succeeds')

def replace_all(K, s, v, old, new, caps):
    v = K.deref(s, v)
    if not isinstance(v, VSeq):
        raise ToolLimit('edit list')
    K.ob('one edit', s, z3.BoolVal(len(v.items) == 1))
    if len(v.items) != 1:
        return
    rg = whole(K, s, old, caps)
    K.ob('over the whole file', s, z3.And(K.is_(s, rg, 'Some'), K.eq(s, K.fld(s, v.items[0], 'range', of=LT + 'TextEdit'), K.payload(s, rg, 'Some'))))
    K.ob('with the new text', s, K.eq(s, K.fld(s, v.items[0], 'new_text', of=LT + 'TextEdit'), new))

@contract(C + 'handle_extract_event')
def extract_event(K):
    """a new package next to Cargo.toml in a directory that does not exist yet, holding the extracted event; the document uses it and depends on it"""
    E = K.E
    K.opaque(*NOOPS)
    calls = []
    add = E.contracts['command::add_dependency_to_cargo_toml']
    def add_dep(E, st, func, args, dty):
        # an uninterpreted result per call; the arguments are kept for the contract
        st.ghost = dict(st.ghost, dep=[K.deref(st, x) for x in args])
        yield Outcome(st, E.fresh(st, E.nty(dty), 'with dependency'))
    E.contracts['command::add_dependency_to_cargo_toml'] = add_dep
    fn = C + 'handle_extract_event'
    st = State()
    uri, rng, snaps, caps = a = K.args(fn, st)
    n = 0
    P = E.path
    RS = 'lsp-server::ExtractEventResponse'
    for o in K.run(fn, a, st):
        s = o.st
        if K.variant(s, o.val) != 'Ok':
            continue
        n += 1
        r = K.payload(s, o.val, 'Ok')
        F = lambda f: K.fld(s, r, f, of=RS)
        key = E.url_str(s, K.t(s, uri))
        K.ob('the requested document', s, K.eq(s, F('uri'), uri))
        K.ob('only Rust files', s, z3.SuffixOf(zstr('.rs'), key))
        c, path = cargo_path(K, s, uri)
        K.ob('its Cargo.toml was found', s, c)
        path = K.t(s, path)
        s.assume(P['has_parent'](s, path))
        rd = K.spec(s, 'std::fs::read_to_string', [path], 'Result<String, Error>')
        cu = K.spec(s, 'Url::from_file_path', [path], 'Result<Url, ()>')
        K.ob('and has a uri', s, K.is_(s, cu, 'Ok'))
        K.ob('and can be read', s, K.is_(s, rd, 'Ok'))
        text = K.payload(s, rd, 'Ok')
        dep = s.ghost.get('dep')
        K.ob('a dependency is added', s, z3.BoolVal(dep is not None))
        if dep is None:
            continue
        for s2, present, snap in K.lookup(s, snaps, key):
            K.ob('only open documents', s2, z3.BoolVal(present))
            if not present:
                continue
            ex = K.spec(s2, 'Analysis::extract', [K.fld(s2, snap, 'analysis'), rng], 'Option<Extraction>')
            K.ob('the selection is an event', s2, K.is_(s2, ex, 'Some'))
            x = K.payload(s2, ex, 'Some')
            X = lambda f: K.t(s2, K.fld(s2, x, f, of='analyzer::Extraction'))
            names = K.spec(s2, 'command::package_name', [X('name')], 'Result<(String, String), Error>')
            K.ob('its name makes a package name', s2, K.is_(s2, names, 'Ok'))
            pk = K.payload(s2, names, 'Ok')
            pkg = K.t(s2, E.get_field(s2, pk, None, 0, E.nty('String')))
            crate = K.t(s2, E.get_field(s2, pk, None, 1, E.nty('String')))
            K.ob('the package name', s2, K.eq(s2, K.fld(s2, r, 'name', of=RS), pkg))
            # the dependency: <package> = { path = "<dir>", default-features = false }
            K.ob('dependency added to the Cargo.toml', s2, z3.And(K.t(s2, dep[0]) == K.t(s2, text), K.t(s2, dep[1]) == pkg))
            item = dep[2]
            K.ob('as an inline table', s2, z3.And(K.is_(s2, item, 'Value', TI), K.is_(s2, K.payload(s2, item, 'Value'), 'InlineTable', 'TomlEditValue')))
            m = K.payload(s2, K.payload(s2, item, 'Value'), 'InlineTable')
            default_off(K, s2, m)
            K.ob('nothing else in the dependency', s2, z3.BoolVal(m.base is None and len(m.ups) == 2))
            for s3, v in E.toml_lookup(s2, m, 'path'):
                K.ob('with a path', s3, z3.BoolVal(False) if v is None else K.is_(s3, v, 'String', 'TomlEditValue'))
                if v is None:
                    continue
                d = K.t(s3, K.payload(s3, v, 'String'))
                dirp = P['join'](s3, P['parent'](s3, path), d)
                K.ob('a new directory', s3, z3.Not(P['exists'](s3, dirp)))
                K.ob('named after the package', s3, z3.PrefixOf(pkg, d))
                lib = K.spec(s3, 'Url::from_file_path', [P['join'](s3, P['join'](s3, dirp, zstr('src')), zstr('lib.rs'))], 'Result<Url, ()>')
                car = K.spec(s3, 'Url::from_file_path', [P['join'](s3, dirp, zstr('Cargo.toml'))], 'Result<Url, ()>')
                K.ob('package files have uris', s3, z3.And(K.is_(s3, lib, 'Ok'), K.is_(s3, car, 'Ok')))
                lu, cuu, mu = K.t(s3, K.payload(s3, lib, 'Ok')), K.t(s3, K.payload(s3, car, 'Ok')), K.t(s3, K.payload(s3, cu, 'Ok'))
                s3.assume(z3.And(lu != cuu, mu != K.t(s3, uri)))  # different paths have different uris
                files = E.as_map(s3, K.fld(s3, r, 'files', of=RS))
                K.ob('exactly the two package files', s3, z3.BoolVal(files.base is None and len(files.ups) == 2))
                for s4, p4, v4 in K.lookup(s3, files, lu):
                    K.ob('lib.rs is the extracted event', s4, z3.BoolVal(False) if not p4 else K.eq(s4, v4, X('content')))
                for s4, p4, v4 in K.lookup(s3, files, cuu):
                    K.ob('a Cargo.toml for the package', s4, z3.BoolVal(p4))
                    if p4:
                        K.ob('Cargo.toml: template with the package name', s4, z3.PrefixOf(z3.Concat(zstr('[package]\nname = "'), pkg, zstr('"')), K.t(s4, v4)))
                edits = E.as_map(s3, K.fld(s3, r, 'edits', of=RS))
                K.ob('edits to exactly the document and its Cargo.toml', s3, z3.BoolVal(edits.base is None and len(edits.ups) == 2))
                for s4, p4, v4 in K.lookup(s3, edits, mu):
                    K.ob('edits to Cargo.toml', s4, z3.BoolVal(p4))
                    if p4:
                        v4 = K.deref(s4, v4)
                        rg = whole(K, s4, text, caps)
                        K.ob('one edit over the whole Cargo.toml', s4, z3.And(z3.BoolVal(len(v4.items) == 1), K.is_(s4, rg, 'Some'), K.eq(s4, K.fld(s4, v4.items[0], 'range', of=LT + 'TextEdit'), K.payload(s4, rg, 'Some'))))
                for s4, p4, v4 in K.lookup(s3, edits, K.t(s3, uri)):
                    K.ob('edits to the document', s4, z3.BoolVal(p4))
                    if p4:
                        doc_edits(K, s4, v4, x, X, crate, K.fld(s4, snap, 'context'))
    if not n:
        raise LostAnchor('extraction never succeeds')

def doc_edits(K, s, v, x, X, crate, ctx):
    """the analyzer's edits followed by the import"""
    E = K.E
    parts = K.parts(s, v)
    K.ob('edits, then the import', s, z3.BoolVal(len(parts) == 2 and isinstance(parts[1], VIter) and len(parts[1].items) == 1))
    text_edits(K, s, parts[0], K.fld(s, x, 'edits', of='analyzer::Extraction'), ctx, 'extraction')
    im = parts[1].items[0]
    off = K.t(s, K.fld(s, x, 'import_offset', of='analyzer::Extraction'))
    rg = K.spec(s, 'to_lsp::range', [E.mk_range(E, s, off, off), ctx], 'Option<Range>')
    K.ob('import: place', s, z3.And(K.is_(s, rg, 'Some'), K.eq(s, K.fld(s, im, 'range', of=LT + 'TextEdit'), K.payload(s, rg, 'Some'))))
    want = z3.Concat(X('import_indent'), zstr('use '), crate, zstr('::'), X('name'), zstr(';'))
    K.ob('import: text', s, K.t(s, K.fld(s, im, 'new_text', of=LT + 'TextEdit')) == want)

LIMIT = 400

# ------------------------------------------------------------------------------------------------ dispatching commands
CMDS = ['command::handle_create_project', 'command::handle_migrate_project', 'command::handle_extract_event', 'Url::parse', 'request::parse_range']

def jget(K, s, m, key, variant):
    """(condition, payload) of entry `key` of a JSON object having the given kind"""
    E = K.E
    m = E.as_map(s, m)
    x = E.map_base_val(s, m, zstr(key))
    return z3.And(E.map_base_has(s, m, zstr(key)), K.is_(s, x, variant, 'Value')), K.payload(s, x, variant), x

def purl(K, s, text):
    return K.spec(s, 'Url::parse', [text], 'Result<Url, ParseError>')

@contract(R + 'handle_execute_command')
def execute(K):
    """runs the named command with exactly the given arguments; unknown commands and missing arguments are errors"""
    E = K.E
    K.opaque(*CMDS)
    fn = R + 'handle_execute_command'
    st = State()
    params, snaps, caps = a = K.args(fn, st)
    n = 0
    for o in K.run(fn, a, st):
        s = o.st
        cmd = K.t(s, K.fld(s, params, 'command', of=LT + 'ExecuteCommandParams'))
        args = K.fld(s, params, 'arguments', of=LT + 'ExecuteCommandParams')
        ln = E.seq_len(s, K.t(s, args))
        a0 = E.symval(s, E.nty('serde_json::Value'), 'at', [K.t(s, args), z3.IntVal(0)])
        obj = z3.And(ln > 0, K.is_(s, a0, 'Object', 'Value'))
        m = K.payload(s, a0, 'Object')
        err = K.is_(s, o.val, 'Err')
        known = [zstr(x) for x in ('createProject', 'migrateProject', 'extractEvent')]
        K.ob('unknown commands are errors', s, z3.Implies(z3.And(*[cmd != k for k in known]), err))
        for name in ('createProject', 'migrateProject', 'extractEvent'):
            b = E.branch(s, cmd == zstr(name))
            if b is None:
                continue
            if name == 'createProject':
                c1, nm, _ = jget(K, b, m, 'name', 'String')
                c2, rt, _ = jget(K, b, m, 'root', 'String')
                rt = K.t(b, rt)
                u = purl(K, b, z3.If(z3.SuffixOf(zstr('/'), rt), rt, z3.Concat(rt, zstr('/'))))
                cond = z3.And(obj, c1, c2, K.is_(b, u, 'Ok'))
                res = lambda x: K.spec(x, 'command::handle_create_project', [nm, K.payload(x, u, 'Ok')], 'Result<CreateProjectResponse, Error>')
            else:
                c1, ut, _ = jget(K, b, m, 'uri', 'String')
                u = purl(K, b, ut)
                cond = z3.And(obj, c1, K.is_(b, u, 'Ok'))
                if name == 'migrateProject':
                    res = lambda x: K.spec(x, 'command::handle_migrate_project', [K.payload(x, u, 'Ok'), snaps, caps], 'Result<MigrateProjectResponse, Error>')
                else:
                    mm = E.as_map(b, m)
                    rv = E.map_base_val(b, mm, zstr('range'))
                    rg = K.spec(b, 'request::parse_range', [rv], 'Option<TextRange>')
                    cond = z3.And(cond, E.map_base_has(b, mm, zstr('range')), K.is_(b, rg, 'Some'))
                    res = lambda x: K.spec(x, 'command::handle_extract_event', [K.payload(x, u, 'Ok'), K.payload(x, rg, 'Some'), snaps, caps], 'Result<ExtractEventResponse, Error>')
            K.ob(f'{name}: missing or invalid arguments are errors', b, z3.Implies(z3.Not(cond), K.is_(b, o.val, 'Err')))
            c = E.branch(b, cond)
            if c is None:
                continue
            r = res(c)
            n += 1
            K.ob(f'{name}: an error iff the command fails', c, K.is_(c, o.val, 'Err') == K.is_(c, r, 'Err'))
            d = E.branch(c, K.is_(c, r, 'Ok'))
            if d is not None and K.variant(d, o.val) == 'Ok':
                tv = E.symval(d, E.nty('Result<serde_json::Value, Error>'), [k for k in tovalue(K)][0], [K.t(d, K.payload(d, r, 'Ok'))])
                val = K.payload(d, o.val, 'Ok')
                K.ob(f'{name}: answers its result', d, K.is_(d, val, 'Some') == K.is_(d, tv, 'Ok'))
                for e, pl in K.some(d, val):
                    if pl is not None:
                        K.ob(f'{name}: unaltered', e, K.eq(e, pl[0], K.payload(e, tv, 'Ok')))
    if n < 3:
        raise LostAnchor('commands')

def tovalue(K):
    ks = ['ext:' + k for k in K.E.externs if k.endswith('to_value')]
    if not ks:
        raise LostAnchor('to_value')
    return ks

@contract(R + 'handle_code_action_resolve')
def resolve(K):
    """the action with the command's edits in place of its command, nothing else changed"""
    E = K.E
    K.opaque(*CMDS, 'DocumentChanges::from', '<DocumentChanges as From>::from')
    fn = R + 'handle_code_action_resolve'
    st = State()
    act, snaps, caps = a = K.args(fn, st)
    n = 0
    A = LT + 'CodeAction'
    for o in K.run(fn, a, st):
        s = o.st
        c0, data = K.chain(s, act, 'data?', of=A)
        m = K.payload(s, data, 'Object')
        c1, cmd, _ = jget(K, s, m, 'command', 'String')
        cmd = K.t(s, cmd)
        c2, ut, _ = jget(K, s, m, 'uri', 'String')
        u = purl(K, s, ut)
        base = z3.And(c0, K.is_(s, data, 'Object', 'Value'), c1, c2, K.is_(s, u, 'Ok'))
        mm = E.as_map(s, m)
        rg = K.spec(s, 'request::parse_range', [E.map_base_val(s, mm, zstr('range'))], 'Option<TextRange>')
        mig = z3.And(base, cmd == zstr('migrateProject'))
        ext = z3.And(base, cmd == zstr('extractEvent'), E.map_base_has(s, mm, zstr('range')), K.is_(s, rg, 'Some'))
        K.ob('anything else is an error', s, z3.Implies(z3.Not(z3.Or(mig, ext)), K.is_(s, o.val, 'Err')))
        for kind, cond in (('migrate', mig), ('extract', ext)):
            b = E.branch(s, cond)
            if b is None:
                continue
            if kind == 'migrate':
                r = K.spec(b, 'command::handle_migrate_project', [K.payload(b, u, 'Ok'), snaps, caps], 'Result<MigrateProjectResponse, Error>')
            else:
                r = K.spec(b, 'command::handle_extract_event', [K.payload(b, u, 'Ok'), K.payload(b, rg, 'Some'), snaps, caps], 'Result<ExtractEventResponse, Error>')
            K.ob(f'{kind}: an error iff the command fails', b, K.is_(b, o.val, 'Err') == K.is_(b, r, 'Err'))
            if K.variant(b, o.val) != 'Ok':
                continue
            n += 1
            v = K.payload(b, o.val, 'Ok')
            K.ob(f'{kind}: no command left', b, K.is_(b, K.fld(b, v, 'command', of=A), 'None'))
            for f in ('title', 'kind', 'diagnostics', 'is_preferred', 'disabled', 'data'):
                K.ob(f'{kind}: {f} kept', b, K.eq(b, K.fld(b, v, f, of=A), K.fld(b, act, f, of=A)))
            ce, we = K.chain(b, v, 'edit?', of=A)
            K.ob(f'{kind}: has edits', b, ce)
            W = LT + 'WorkspaceEdit'
            res = K.payload(b, r, 'Ok')
            if kind == 'migrate':
                cc, ch = K.chain(b, we, 'changes?', of=W)
                K.ob('migrate: the edits', b, z3.And(cc, K.eq(b, ch, K.fld(b, res, 'edits', of='lsp-server::MigrateProjectResponse'))))
                K.ob('migrate: nothing else', b, K.is_(b, K.fld(b, we, 'document_changes', of=W), 'None'))
            else:
                cc, ch = K.chain(b, we, 'document_changes?', of=W)
                K.ob('extract: the edits', b, z3.And(cc, K.eq(b, ch, E.symval(b, K.spec_ty['<DocumentChanges as From>::from'], 'spec:<DocumentChanges as From>::from', [K.t(b, res)]))))
                K.ob('extract: nothing else', b, K.is_(b, K.fld(b, we, 'changes', of=W), 'None'))
    if n < 2:
        raise LostAnchor('resolved actions')

def new_files(K, s, it, files):
    """every file: created, then filled with its content at the start of the (empty) file"""
    E = K.E
    K.ob('all new files', s, z3.BoolVal(isinstance(it, vc.VSetIter)) if not isinstance(it, vc.VSetIter) else K.t(s, it.map.base) == K.t(s, files))
    if not isinstance(it, vc.VSetIter):
        raise ToolLimit('iteration over the new files')
    seen = []
    for s2, item, kept, v in E.iter_elem(E, s, it):
        uri, content = item.fields[0], item.fields[1]
        K.ob('every file yields operations', s2, z3.BoolVal(kept))
        if not kept:
            continue
        k = K.variant(s2, v)
        seen.append(k)
        if k == 'Op':
            op = K.payload(s2, v, 'Op')
            K.ob('a create operation', s2, z3.BoolVal(K.variant(s2, op) == 'Create'))
            cr = K.payload(s2, op, 'Create')
            K.ob('creates the file', s2, K.eq(s2, K.fld(s2, cr, 'uri', of=LT + 'CreateFile'), uri))
            K.ob('never overwrites', s2, K.is_(s2, K.fld(s2, cr, 'options', of=LT + 'CreateFile'), 'None'))
        elif k == 'Edit':
            e = K.payload(s2, v, 'Edit')
            T = LT + 'TextDocumentEdit'
            K.ob('fills the file', s2, K.eq(s2, K.fld(s2, e, 'text_document.uri', of=T), uri))
            K.ob('in any version', s2, K.is_(s2, K.fld(s2, e, 'text_document.version', of=T), 'None'))
            es = K.deref(s2, K.fld(s2, e, 'edits', of=T))
            if not isinstance(es, VSeq):
                raise ToolLimit('edits')
            K.ob('with one edit', s2, z3.BoolVal(len(es.items) == 1 and K.variant(s2, es.items[0]) == 'Left'))
            te = K.payload(s2, es.items[0], 'Left')
            K.ob('the content', s2, K.eq(s2, K.fld(s2, te, 'new_text', of=LT + 'TextEdit'), content))
            K.ob('at the start', s2, K.eq(s2, K.fld(s2, te, 'range', of=LT + 'TextEdit'), E.symval(s2, E.nty('lsp_types::Range'), 'default:Range')))
        else:
            raise ToolLimit('operation')
    K.ob('created before it is filled', s, z3.BoolVal(seen == ['Op', 'Edit']))

@contract('<DocumentChanges as From<CreateProjectResponse>>::from')
def create_changes(K):
    """creates and fills every file of the new project, nothing else"""
    fn = '<DocumentChanges as From<CreateProjectResponse>>::from'
    st = State()
    v, = a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        K.ob('operations', s, K.is_(s, o.val, 'Operations'))
        ps = K.parts(s, K.payload(s, o.val, 'Operations'))
        K.ob('new files only', s, z3.BoolVal(len(ps) == 1))
        new_files(K, s, ps[0], K.fld(s, v, 'files', of='lsp-server::CreateProjectResponse'))

@contract('<DocumentChanges as From<ExtractEventResponse>>::from')
def extract_changes(K):
    """creates and fills every file of the event package, then edits every edited document with exactly its edits"""
    E = K.E
    fn = '<DocumentChanges as From<ExtractEventResponse>>::from'
    st = State()
    v, = a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        K.ob('operations', s, K.is_(s, o.val, 'Operations'))
        ps = K.parts(s, K.payload(s, o.val, 'Operations'))
        K.ob('new files, then edits', s, z3.BoolVal(len(ps) == 2))
        new_files(K, s, ps[0], K.fld(s, v, 'files', of='lsp-server::ExtractEventResponse'))
        it = ps[1]
        if not isinstance(it, vc.VSetIter):
            raise ToolLimit('iteration over edits')
        K.ob('all edited documents', s, K.t(s, it.map.base) == K.t(s, K.fld(s, v, 'edits', of='lsp-server::ExtractEventResponse')))
        for s2, item, kept, x in E.iter_elem(E, s, it):
            K.ob('no document is skipped', s2, z3.BoolVal(kept))
            if not kept:
                continue
            K.ob('an edit', s2, z3.BoolVal(K.variant(s2, x) == 'Edit'))
            e = K.payload(s2, x, 'Edit')
            T = LT + 'TextDocumentEdit'
            K.ob('of that document', s2, K.eq(s2, K.fld(s2, e, 'text_document.uri', of=T), item.fields[0]))
            K.ob('in any version', s2, K.is_(s2, K.fld(s2, e, 'text_document.version', of=T), 'None'))
            es = K.elems(s2, K.fld(s2, e, 'edits', of=T))
            K.ob('all its edits', s2, es.src == K.t(s2, item.fields[1]))
            for s3, i3, k3, v3 in E.iter_elem(E, s2, es):
                K.ob('unaltered', s3, z3.And(z3.BoolVal(k3), K.is_(s3, v3, 'Left'), K.eq(s3, K.payload(s3, v3, 'Left'), i3)))
