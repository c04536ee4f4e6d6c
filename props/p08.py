"""P08: documents are analysed for the ink! version their project asks for."""
import z3
import kit
from kit import *
from models_str import alt, seq, lit, byte_range, ALL, WS
import p02, p03, p07
CONTRACTS, contract = kit.registry()
LIMIT = 300
ASSUMPTIONS = ['toml::from_str is a function of the text; a table is a map from keys to values',
               'file system queries and file contents are functions of the path within one call',
               'the regex crate matches the regular language of its pattern (translated to a z3 regular language over UTF-8 bytes)',
               'a package is at most ten directories below its Cargo.toml; Cargo.toml of a workspace is the nearest one above the package']

# ------------------------------------------------------------------------------------------------ version requirements (cargo's grammar)
num = alt([lit('0'), seq([byte_range(49, 57), z3.Star(byte_range(48, 57))])])
nz = seq([byte_range(49, 57), z3.Star(byte_range(48, 57))])
wild = alt([lit('*'), lit('x'), lit('X')])
idch = alt([byte_range(48, 57), byte_range(65, 90), byte_range(97, 122), lit('-'), lit('.')])
tail = seq([z3.Option(seq([lit('-'), z3.Plus(idch)])), z3.Option(seq([lit('+'), z3.Plus(idch)]))])
rest = alt([lit(''), seq([lit('.'), alt([num, wild])]), seq([lit('.'), num, lit('.'), alt([wild, seq([num, tail])])]), seq([lit('.'), wild, lit('.'), wild])])
sp = z3.Star(lit(' '))
sep = seq([sp, lit(','), sp])
comp = seq([alt(map(lit, ['', '^', '~', '=', '>', '>=', '<=', '<'])), sp, num, rest])
v5 = alt([seq([alt(map(lit, ['', '^', '~', '=', '>', '>=', '<='])), sp, lit('5'), rest]),
          seq([lit('<'), sp, lit('5.'), nz, alt([lit(''), seq([lit('.'), alt([wild, seq([num, tail])])])])]),
          seq([lit('<'), sp, lit('5.0.'), nz, tail])])
REQ = seq([sp, comp, z3.Star(seq([sep, comp])), sp])
REQ5 = seq([sp, z3.Star(seq([comp, sep])), v5, z3.Star(seq([sep, comp])), sp])
ANYV = seq([sp, lit('*'), sp])

@contract('dispatch::is_v5_version_string')
def is_v5(K):
    """for every cargo version requirement: accepted exactly if some comparator names major version 5 (upper bounds: only above 5.0.0)"""
    fn = 'dispatch::is_v5_version_string'
    st = State()
    t, = a = K.args(fn, st)
    x = K.t(st, t)
    for o in K.run(fn, a, st):
        s = o.st
        b = s.fork()
        b.assume(z3.InRe(x, REQ5))
        K.ob('a requirement for 5 is accepted', b, K.t(b, o.val))
        b = s.fork()
        b.assume(z3.And(z3.InRe(x, REQ), z3.Not(z3.InRe(x, REQ5))))
        K.ob('any other requirement is not', b, z3.Not(K.t(b, o.val)))

@contract('InkProjectVersion::guess_version')
def guess_version(K):
    """version 5 for requirements that name 5 or are `*`, and for path/git dependencies without a requirement; 4 otherwise"""
    fn = 'InkProjectVersion::guess_version'
    E = K.E
    st = State()
    me, = a = K.args(fn, st)
    for o in K.run(fn, a, st):
        s = o.st
        ver, path, git = (K.fld(s, me, n) for n in ('version', 'path', 'git'))
        five = K.is_(s, o.val, 'V5', 'Version')
        for s2, pl in K.some(s, ver):
            if pl is None:
                K.ob('no requirement: 5 iff from a path or git repository', s2, five == z3.Or(K.is_(s2, path, 'Some'), K.is_(s2, git, 'Some')))
                continue
            x = K.t(s2, pl[0])
            for lang, what in ((REQ5, 'a requirement for 5'), (ANYV, '`*`')):
                b = s2.fork()
                b.assume(z3.InRe(x, lang))
                K.ob(what + ': version 5', b, five)
            b = s2.fork()
            b.assume(z3.And(z3.InRe(x, REQ), z3.Not(z3.InRe(x, REQ5))))
            K.ob('any other requirement: version 4', b, z3.Not(five))

def toml(K, s, text):
    r = K.E.symval(s, K.E.nty('Result<BTreeMap<String, TomlValue>, TomlDeError>'), 'ext:toml::from_str', [text])
    return r

INNER = 'dispatch::parse_ink_project_version::parse_ink_project_version_inner'

@contract(INNER)
def inner(K):
    """the ink entry of [dependencies] (or [workspace.dependencies]): requirement, path, git and workspace flag exactly as written"""
    E = K.E
    TV = 'TomlValue'
    texts = []
    def from_str(E, st, func, args, dty):
        t = K.t(st, args[0])
        v = E.symval(st, E.nty(dty), 'toml', [t])
        st.ghost = dict(st.ghost, parsed=(t, v))
        yield Outcome(st, v)
    E.contracts['toml::from_str'] = from_str
    def read(E, st, func, args, dty):
        v = E.symval(st, E.nty(dty), 'file', [E.path['term'](st, args[0])])
        st.ghost = dict(st.ghost, read=(E.path['term'](st, args[0]), v))
        yield Outcome(st, v)
    for n in ('std::fs::read_to_string', 'fs::read_to_string', 'read_to_string'):
        E.contracts[n] = read
    st = State()
    p, ws = a = K.args(INNER, st)
    pt = E.path['term'](st, p)
    isf = E.path['is_file'](st, pt)
    n = 0
    for o in K.run(INNER, a, st):
        s = o.st
        g = s.ghost
        if 'read' not in g:
            K.ob('only a missing file is not read', s, z3.Not(isf))
            K.ob('no file: nothing', s, K.is_(s, o.val, 'None'))
            continue
        K.ob('the given file is read', s, g['read'][0] == pt)
        if 'parsed' not in g:
            K.ob('only an unreadable file is not parsed', s, K.is_(s, g['read'][1], 'Err'))
            K.ob('unreadable: nothing', s, K.is_(s, o.val, 'None'))
            continue
        K.ob('its text is parsed', s, g['parsed'][0] == K.t(s, K.payload(s, g['read'][1], 'Ok')))
        b = E.branch(s, K.is_(s, g['parsed'][1], 'Err'))
        if b is not None:
            K.ob('not TOML: nothing', b, K.is_(b, o.val, 'None'))
        s = E.branch(s, K.is_(s, g['parsed'][1], 'Ok'))
        if s is None:
            continue
        pkg = K.deref(s, K.payload(s, g['parsed'][1], 'Ok'))
        def look(s, m, key):
            """(state, table value or None) of a key that must hold a table"""
            for s2, pr, v in K.lookup(s, m, zstr(key)):
                if not pr:
                    yield s2, None
                    continue
                c = K.is_(s2, v, 'Table', TV)
                x = E.branch(s2, c)
                if x is not None:
                    yield x, K.payload(x, v, 'Table')
                x = E.branch(s2, z3.Not(c))
                if x is not None:
                    yield x, None
        def deps(s):
            x = E.branch(s, K.t(s, ws))
            if x is not None:
                for s2, w in look(x, pkg, 'workspace'):
                    if w is None:
                        yield s2, None
                    else:
                        yield from look(s2, w, 'dependencies')
            x = E.branch(s, z3.Not(K.t(s, ws)))
            if x is not None:
                yield from look(x, pkg, 'dependencies')
        for s2, d in deps(s):
            if d is None:
                K.ob('no dependencies: nothing', s2, K.is_(s2, o.val, 'None'))
                continue
            for s3, pr, ink in K.lookup(s2, d, zstr('ink')):
                if not pr:
                    K.ob('no ink dependency: nothing', s3, K.is_(s3, o.val, 'None'))
                    continue
                some = K.variant(s3, o.val) == 'Some'
                r = K.payload(s3, o.val, 'Some') if some else None
                x = E.branch(s3, K.is_(s3, ink, 'String', TV))
                if x is not None:
                    n += 1
                    K.ob('`ink = "…"`: found', x, z3.BoolVal(some))
                    if some:
                        v = K.fld(x, r, 'version')
                        K.ob('`ink = "…"`: that requirement, nothing else', x, z3.And(K.is_(x, v, 'Some'), K.eq(x, K.payload(x, v, 'Some'), K.payload(x, ink, 'String')),
                             K.is_(x, K.fld(x, r, 'path'), 'None'), K.is_(x, K.fld(x, r, 'git'), 'None'), z3.Not(K.t(x, K.fld(x, r, 'workspace')))))
                x = E.branch(s3, K.is_(s3, ink, 'Table', TV))
                if x is not None:
                    n += 1
                    m = K.payload(x, ink, 'Table')
                    def walk(s, keys, got):
                        if keys:
                            for s4, pr, v in K.lookup(s, m, zstr(keys[0])):
                                walk(s4, keys[1:], dict(got, **{keys[0]: v if pr else None}))
                            return
                        has = {k: (K.is_(s, v, 'String', TV) if v is not None else z3.BoolVal(False)) for k, v in got.items() if k != 'workspace'}
                        w = got['workspace']
                        wt = z3.BoolVal(False) if w is None else z3.And(K.is_(s, w, 'Boolean', TV), K.t(s, K.payload(s, w, 'Boolean')))
                        K.ob('`ink = {…}`: found iff it says anything', s, z3.BoolVal(some) == z3.Or(wt, *has.values()))
                        if some:
                            for k in ('version', 'path', 'git'):
                                f = K.fld(s, r, k)
                                K.ob(f'{k}: present iff written', s, K.is_(s, f, 'Some') == has[k])
                                if got[k] is not None and K.variant(s, f) != 'None':
                                    y = s.fork()
                                    y.assume(has[k])
                                    K.ob(f'{k}: as written', y, K.eq(y, K.payload(y, f, 'Some'), K.payload(y, got[k], 'String')))
                            K.ob('workspace: as written', s, K.t(s, K.fld(s, r, 'workspace')) == wt)
                    walk(x, ['version', 'path', 'git', 'workspace'], {})
                x = E.branch(s3, z3.Not(z3.Or(K.is_(s3, ink, 'String', TV), K.is_(s3, ink, 'Table', TV))))
                if x is not None:
                    K.ob('anything else: nothing', x, z3.BoolVal(not some))
    if not n:
        raise LostAnchor('an ink dependency is never found')

PARSE = 'dispatch::parse_ink_project_version'

@contract(PARSE)
def parse(K):
    """for a .rs file: what its nearest Cargo.toml says about ink; when that is inherited, what [workspace.dependencies] of the same file says,
    else of the nearest Cargo.toml above, else the entry itself"""
    E = K.E
    K.opaque('parse_ink_project_version::parse_ink_project_version_inner', 'parse_ink_project_version_inner', 'utils::find_cargo_toml', 'Url::to_file_path')
    st = State()
    uri, = a = K.args(PARSE, st)
    n = 0
    for o in K.run(PARSE, a, st):
        s = o.st
        fp = K.spec(s, 'Url::to_file_path', [uri], 'Result<PathBuf, ()>')
        b = E.branch(s, K.is_(s, fp, 'Err'))
        if b is not None:
            K.ob('not a file: nothing', b, K.is_(b, o.val, 'None'))
        s = E.branch(s, K.is_(s, fp, 'Ok'))
        if s is None:
            continue
        path = K.payload(s, fp, 'Ok')
        pt = E.path['term'](s, path)
        ct = K.spec(s, 'utils::find_cargo_toml', [path], 'Option<PathBuf>')
        isrs = s.ghost.get('isrs')
        ext = E.uf('path_is_rs', [pt], z3.BoolSort())
        nm = [k for k in K.spec_ty if 'inner' in k]
        if not nm:
            K.ob('looked up nothing: not found', s, K.is_(s, o.val, 'None'))
            continue
        inn = lambda s, p, w: K.spec(s, nm[0], [p, z3.BoolVal(w)], 'Option<InkProjectVersion>')
        b = E.branch(s, K.is_(s, ct, 'None'))
        if b is not None:
            K.ob('no Cargo.toml: nothing', b, K.is_(b, o.val, 'None'))
        s = E.branch(s, K.is_(s, ct, 'Some'))
        if s is None:
            continue
        cp = K.payload(s, ct, 'Some')
        own = inn(s, cp, False)
        rs = rs_file(K, s, pt)
        b = E.branch(s, z3.Not(rs))
        if b is not None:
            K.ob('not a rust file: nothing', b, K.is_(b, o.val, 'None'))
        s = E.branch(s, rs)
        if s is None:
            continue
        n += 1
        inherits = z3.And(K.is_(s, own, 'Some'), K.t(s, K.fld(s, K.payload(s, own, 'Some'), 'workspace', of='InkProjectVersion')))
        b = E.branch(s, z3.Not(inherits))
        if b is not None:
            K.ob('not inherited: the entry itself', b, K.eq(b, o.val, own))
        s = E.branch(s, inherits)
        if s is None:
            continue
        root = inn(s, cp, True)
        b = E.branch(s, K.is_(s, root, 'Some'))
        if b is not None:
            K.ob('inherited in the same file: what it says', b, K.eq(b, o.val, root))
        s = E.branch(s, K.is_(s, root, 'None'))
        if s is None:
            continue
        cpt = E.path['term'](s, cp)
        up = E.path['parent'](s, cpt)
        ct2 = K.spec(s, 'utils::find_cargo_toml', [z3.If(E.path['has_parent'](s, cpt), up, cpt)], 'Option<PathBuf>')
        for s2, pl in K.some(s, ct2):
            if pl is None:
                K.ob('no workspace found: the entry itself', s2, K.eq(s2, o.val, own))
                continue
            wsv = inn(s2, pl[0], True)
            K.ob('inherited: what the workspace says, else the entry itself', s2, K.t(s2, o.val) == z3.If(K.is_(s2, wsv, 'Some'), K.t(s2, wsv), K.t(s2, own)))
    if not n:
        raise LostAnchor('no rust file')

def rs_file(K, s, pt):
    E = K.E
    OS = E.nty('Option<OsStr>')
    ext = E.symval(s, OS, 'ext:std::path::Path::extension', [pt])
    return z3.And(K.is_(s, ext, 'Some'), E.uf('eq:OsStr:String', [K.t(s, K.payload(s, ext, 'Some')), zstr('rs')], z3.BoolSort()))

@contract('Dispatcher::handle_request')
def fuel(K):
    """the project's version is looked up again for the next two changes exactly after a migration was requested or resolved"""
    E = K.E
    E.contracts['RequestRouter::process'] = p02.c_process
    def changes(E, st, func, args, dty):
        for o in p02.c_changes(E, st, func, args, dty):
            o.st.ghost = dict(o.st.ghost, fuel=K.t(o.st, K.fld(o.st, args[0], 'version_check_fuel')))
            yield o
    E.contracts['Dispatcher::process_changes'] = changes
    E.contracts['Dispatcher::process_command_response'] = p02.c_cmd
    st = State()
    fn = 'Dispatcher::handle_request'
    self_, req = K.args(fn, st)
    method = K.fld(st, req, 'method', of='lsp_server::Request')
    params = K.fld(st, req, 'params', of='lsp_server::Request')
    def at(s, v, path):
        """(condition, string value) at a path of object keys"""
        conds = []
        for k in path:
            conds.append(K.is_(s, v, 'Object', 'Value'))
            m = E.as_map(s, K.payload(s, v, 'Object'))
            conds.append(E.map_base_has(s, m, zstr(k)))
            v = E.map_base_val(s, m, zstr(k))
        conds.append(K.is_(s, v, 'String', 'Value'))
        return z3.And(*conds), K.t(s, K.payload(s, v, 'String'))
    for o in K.run(fn, [self_, req], st):
        s = o.st
        if s.ghost.get('send_failed'):
            continue
        c1, x1 = at(s, params, ['command'])
        c2, x2 = at(s, params, ['data', 'command'])
        mig = z3.Or(z3.And(K.eq(s, method, 'workspace/executeCommand'), c1, x1 == zstr('migrateProject')),
                    z3.And(K.eq(s, method, 'codeAction/resolve'), c2, x2 == zstr('migrateProject')))
        K.ob('fuel', s, K.t(s, K.fld(s, self_, 'version_check_fuel')) == z3.If(mig, z3.IntVal(2), s.ghost['fuel']))

# the nearest Cargo.toml, and when the version is (re)computed
for c in p07.CONTRACTS:
    if c.name == 'find_cargo_toml':
        CONTRACTS.append(c)
for c in p03.CONTRACTS:
    if c.name == 'process_changes':
        CONTRACTS.append(c)
