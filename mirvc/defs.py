"""Struct/enum layouts (variant order, field order) read from Rust source text: the repository's own
crates and the few dependencies whose enums the verified functions match on."""
import re, os, glob
import mir, models_toml

STD_ENUMS = {
    'Option': [('None', 0), ('Some', 1)],
    'Result': [('Ok', 1), ('Err', 1)],
    'ControlFlow': [('Continue', 1), ('Break', 1)],
    'Cow': [('Borrowed', 1), ('Owned', 1)],
    'Ordering': [('Less', 0), ('Equal', 0), ('Greater', 0)],
}

def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = n if j < 0 else j
        elif s.startswith('/*', i):
            j = s.find('*/', i)
            i = n if j < 0 else j + 2
        elif c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            out.append('""')
            i = j + 1
        elif s.startswith('r#"', i):
            j = s.find('"#', i + 3)
            out.append('""')
            i = j + 2
        elif c == "'" and re.match(r"'(\\.[^']*|[^'\\])'", s[i:i + 12]):
            m = re.match(r"'(\\.[^']*|[^'\\])'", s[i:i + 12])
            out.append("' '")
            i += m.end()
        else:
            out.append(c)
            i += 1
    return ''.join(out)

def balanced(s, i):
    o = s[i]
    cl = {'{': '}', '(': ')', '[': ']'}[o]
    d = 0
    while i < len(s):
        if s[i] == o:
            d += 1
        elif s[i] == cl:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError('unbalanced')

def split_fields(s):
    out, d, cur = [], 0, ''
    for k, c in enumerate(s):
        if c in '({[<':
            d += 1
        elif c in ')}]' or (c == '>' and s[k - 1] not in '-='):
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [re.sub(r'#!?\[[^\]]*\]\s*', '', x).strip() for x in out if x.strip()]

def drop_attrs(s):
    # removes #[...] with nested brackets
    out, i = [], 0
    while i < len(s):
        if s.startswith('#[', i):
            i = balanced(s, i + 1) + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)

class Defs:
    def __init__(self):
        self.enums = {k: list(v) for k, v in STD_ENUMS.items()}
        self.structs = {}
        self.clike = {'Ordering'}
        self.explicit = {'Ordering': {'Less': -1, 'Equal': 0, 'Greater': 1}}
        self.methods = {}
        self.payloads = {}
        self.aliases = {}

    def scan(self, path, label=''):
        with open(path, errors='replace') as fh:
            s = mir.rename(strip_comments(fh.read()))
        for m in re.finditer(r'\benum\s+([A-Za-z_][A-Za-z0-9_]*)\s*(<[^{;]*>)?\s*(where[^{]*)?\{', s):
            name = m.group(1)
            try:
                e = balanced(s, m.end() - 1)
            except ValueError:
                continue
            body = drop_attrs(s[m.end():e])
            vs = []
            pl = {}
            params = re.findall(r"(?:<|,)\s*([A-Z]\w*)", re.sub(r':[^,>]*', '', m.group(2) or ''))
            explicit = False
            for f in split_fields(body):
                mm = re.match(r'^([A-Za-z_][A-Za-z0-9_]*)\s*(.*)$', f, re.S)
                if not mm:
                    continue
                rest = mm.group(2).strip()
                ar, names = 0, None
                if rest.startswith('('):
                    tys = [' '.join(x.split()) for x in split_fields(rest[1:balanced(rest, 0)])]
                    pl[mm.group(1)] = (params, tys)
                    ar = len(tys)
                elif rest.startswith('{'):
                    ar = len(split_fields(rest[1:balanced(rest, 0)]))
                elif rest.startswith('='):
                    explicit = True
                vs.append((mm.group(1), ar))
            if name in STD_ENUMS:
                continue
            if explicit:
                try:
                    nxt, mp = 0, {}
                    for f in split_fields(body):
                        mm = re.match(r'^([A-Za-z_][A-Za-z0-9_]*)\s*(?:=\s*(-?[0-9_]+))?$', f, re.S)
                        if mm.group(2):
                            nxt = int(mm.group(2).replace('_', ''))
                        mp[mm.group(1)] = nxt
                        nxt += 1
                    self.explicit[name] = mp
                except AttributeError:
                    continue
            if name in self.enums and len(self.enums[name]) >= len(vs):
                continue
            self.enums[name] = vs
            self.payloads[name] = pl
            if vs and all(a == 0 for _, a in vs):
                self.clike.add(name)
            else:
                self.clike.discard(name)
        for m in re.finditer(r'\bstruct\s+([A-Za-z_][A-Za-z0-9_]*)\s*(<[^{;(]*>)?\s*(where[^{]*)?\{', s):
            name = m.group(1)
            try:
                e = balanced(s, m.end() - 1)
            except ValueError:
                continue
            body = drop_attrs(s[m.end():e])
            fs = []
            for f in split_fields(body):
                mm = re.match(r'^(?:pub(?:\([^)]*\))?\s+)?([A-Za-z_][A-Za-z0-9_]*)\s*:\s*(.*)$', f, re.S)
                if mm:
                    fs.append((mm.group(1), ' '.join(mm.group(2).split())))
            if re.search(r'#\[ink_analyzer_macro::entity[^\n]*\n(?:\s*#\[[^\n]*\n)*\s*(?:pub(?:\([^)]*\))?\s+)?$', s[:m.start()]) and any(n == 'ast' for n, _ in fs):
                # crates/macro/src/entity.rs generates these three fields in front of the declared ones
                ast = [t for n, t in fs if n == 'ast'][0]
                fs = [('syntax', 'SyntaxNode'), ('ast', f'Option<{ast}>'), ('ink_attr', 'Option<InkAttribute>')] + [x for x in fs if x[0] != 'ast']
            self.structs.setdefault(name, fs)
            self.structs.setdefault(f'{label}::{name}', fs)
        for m in re.finditer(r'^(?:pub(?:\([^)]*\))?\s+)?type\s+([A-Z]\w*)\s*=\s*([^;]*);', s, re.M):
            self.aliases.setdefault(m.group(1), ' '.join(m.group(2).split()))

    def variant_index(self, enum, v):
        if enum in self.explicit:
            return self.explicit[enum][v]
        for i, (n, _) in enumerate(self.enums[enum]):
            if n == v:
                return i
        raise KeyError((enum, v))

    def scan_methods(self, path):
        s = open(path, errors='replace').read()
        for m in re.finditer(r'impl\s+(?:Request|Notification)\s+for\s+(\w+)\s*\{(.*?)\n\}', s, re.S):
            k = re.search(r'const METHOD: &\'static str = "([^"]*)"', m.group(2))
            if k:
                self.methods[m.group(1)] = k.group(1)

def dep_dirs(repo):
    """registry source directories of the locked dependency versions"""
    out = {}
    lock = open(os.path.join(repo, 'Cargo.lock')).read()
    for m in re.finditer(r'name = "([^"]+)"\nversion = "([^"]+)"', lock):
        for d in glob.glob(os.path.expanduser('~/.cargo/registry/src/*/%s-%s' % (m.group(1), m.group(2)))):
            out[m.group(1)] = d
    return out

def load(repo):
    d = Defs()
    for f in sorted(glob.glob(repo + '/crates/*/src/**/*.rs', recursive=True)):
        if 'test' in os.path.basename(f):
            continue
        d.scan(f, f[len(repo) + 8:].split('/')[0])
    deps = dep_dirs(repo)
    for name, pats in {
        'lsp-types': ['src/*.rs'], 'lsp-server': ['src/msg.rs', 'src/error.rs'],
        'ra_ap_parser': ['src/syntax_kind/*.rs'],
        'rowan': ['src/utility_types.rs'], 'serde_json': ['src/value/mod.rs'],
        'ra_ap_syntax': ['src/ast/generated/nodes.rs', 'src/ast/generated/tokens.rs', 'src/ast/traits.rs', 'src/token_text.rs',
                         'src/ast/token_ext.rs', 'src/ast/expr_ext.rs'],
        'line-index': ['src/lib.rs'], 'text-size': ['src/range.rs', 'src/size.rs'],
    }.items():
        if name not in deps:
            continue
        for p in pats:
            for f in sorted(glob.glob(os.path.join(deps[name], p))):
                d.scan(f, name.replace('-', '_'))
                if name == 'lsp-types' and os.path.basename(f) in ('request.rs', 'notification.rs'):
                    d.scan_methods(f)
    models_toml.defs(d)
    return d
