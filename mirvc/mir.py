"""Parser for the textual MIR that rustc (the repository's own pinned toolchain) emits for the
crates in /repo.  Nothing here interprets the program; it only turns the compiler's text into
tuples.  Bodies are parsed lazily, on first use."""
import os, re, json

class MirError(Exception):
    pass

# ---------------------------------------------------------------- low-level scanning
OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = {v: k for k, v in OPEN.items()}

def skip_string(s, i):
    """s[i] == '"'; returns index after the closing quote."""
    j = i + 1
    while s[j] != '"':
        j += 2 if s[j] == '\\' else 1
    return j + 1

def is_char_lit(s, i):
    # distinguishes 'c' / '\n' / '\u{1}' from a lifetime
    m = re.compile(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])'").match(s, i)
    return m.end() if m else None

def match_close(s, i):
    """s[i] is an opening bracket; returns the index of the matching closing one."""
    depth = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'":
            e = is_char_lit(s, i)
            if e:
                i = e
                continue
        if c in '([{<':
            depth += 1
        elif c == '>' and s[i - 1] in '-=':
            pass
        elif c in ')]}>':
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirError('unbalanced: ' + s[:120])

def split_top(s, sep=','):
    """Split at top-level separators."""
    out, depth, start, i = [], 0, 0, 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'":
            e = is_char_lit(s, i)
            if e:
                i = e
                continue
        if c in '([{<':
            depth += 1
        elif c == '>' and i and s[i - 1] in '-=':
            pass
        elif c in ')]}>':
            depth -= 1
        elif depth == 0 and s.startswith(sep, i):
            out.append(s[start:i].strip())
            i += len(sep)
            start = i
            continue
        i += 1
    last = s[start:].strip()
    if last:
        out.append(last)
    return out

def find_top(s, pat, start=0):
    """Index of top-level occurrence of the literal `pat`, or -1."""
    depth, i = 0, start
    while i < len(s):
        if depth == 0 and s.startswith(pat, i):
            return i
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'":
            e = is_char_lit(s, i)
            if e:
                i = e
                continue
        if c in '([{<':
            depth += 1
        elif c == '>' and i and s[i - 1] in '-=':
            pass
        elif c in ')]}>':
            depth -= 1
        i += 1
    return -1

# ---------------------------------------------------------------- types
_ty_cache = {}

def strip_lifetimes(s):
    s = re.sub(r"for<[^>]*>\s*", '', s)
    s = re.sub(r"&'[a-z_A-Z0-9]+ ", '&', s)
    s = re.sub(r"<'[a-z_A-Z0-9]+(, '[a-z_A-Z0-9]+)*>", '', s)
    s = re.sub(r"::<>", '', s)
    s = re.sub(r"<'[a-z_A-Z0-9]+, ", '<', s)
    s = re.sub(r", '[a-z_A-Z0-9]+(?=[,>])", '', s)
    s = re.sub(r" \+ '[a-z_A-Z0-9]+", '', s)
    return s

def parse_ty(s):
    s = s.strip()
    if s in _ty_cache:
        return _ty_cache[s]
    r = _parse_ty(strip_lifetimes(s).strip())
    _ty_cache[s] = r
    return r

PRIMS = {'bool', 'char', 'str', '!', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize',
         'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64'}

def _parse_ty(s):
    if s.startswith('&mut '):
        return ('ref', True, parse_ty(s[5:]))
    if s.startswith('&'):
        return ('ref', False, parse_ty(s[1:]))
    if s.startswith('*const ') :
        return ('ptr', parse_ty(s[7:]))
    if s.startswith('*mut '):
        return ('ptr', parse_ty(s[5:]))
    if s == '()':
        return ('tuple', ())
    if s.startswith('(') and match_close(s, 0) == len(s) - 1:
        return ('tuple', tuple(parse_ty(x) for x in split_top(s[1:-1])))
    if s.startswith('[') and match_close(s, 0) == len(s) - 1:
        parts = split_top(s[1:-1], ';')
        if len(parts) == 2:
            return ('array', parse_ty(parts[0]), parts[1])
        return ('slice', parse_ty(parts[0]))
    if s.startswith('{closure@') or s.startswith('{async'):
        return ('closure', s)
    if s.startswith('dyn ') or s.startswith('impl ') or s.startswith('(dyn '):
        return ('dyn', s)
    if s.startswith('fn(') or s.startswith('unsafe fn') or s.startswith('extern '):
        m = find_top(s, ' {')
        if m >= 0:
            return ('fndef', s[m + 2:-1])
        return ('fnptr', s)
    if s in PRIMS:
        return ('prim', s)
    if s.startswith('<'):
        return ('proj', s)
    # path with optional generics
    m = re.match(r'^[A-Za-z_0-9:#\{\}]+', s)
    if not m:
        return ('other', s)
    i = find_top(s, '<')
    if i < 0:
        return ('adt', s, ())
    if i > 0 and match_close(s, i) == len(s) - 1:
        args = tuple(parse_ty(x) for x in split_top(s[i + 1:-1]) if not x.startswith("'"))
        return ('adt', s[:i].rstrip(':'), args)
    return ('other', s)

# ---------------------------------------------------------------- constants / places / operands
_ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}

def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            c = s[i + 1]
            if c == 'u':
                j = s.index('}', i)
                out.append(chr(int(s[i + 3:j], 16)))
                i = j + 1
            elif c == 'x':
                out.append(chr(int(s[i + 2:i + 4], 16)))
                i += 4
            else:
                out.append(_ESC[c])
                i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)

class P:
    """Cursor parser for places and operands."""
    def __init__(self, s, i=0):
        self.s, self.i = s, i

    def place(self):
        s = self.s
        if s.startswith('_', self.i):
            m = re.compile(r'_\d+').match(s, self.i)
            if not m:
                raise MirError('place: ' + s[self.i:self.i + 60])
            self.i = m.end()
            base = ('local', int(m.group()[1:]), ())
        elif s[self.i] == '(':
            close = match_close(s, self.i)
            inner = s[self.i + 1:close]
            if inner.startswith('*'):
                p = P(inner, 1)
                b = p.place()
                base = (b[0], b[1], b[2] + (('deref',),))
                if p.i != len(inner):
                    raise MirError('deref place: ' + inner)
            else:
                p = P(inner)
                b = p.place()
                rest = inner[p.i:]
                if rest.startswith('.'):
                    m = re.match(r'\.(\d+): (.*)$', rest, re.S)
                    base = (b[0], b[1], b[2] + (('field', int(m.group(1)), m.group(2)),))
                elif rest.startswith(' as '):
                    base = (b[0], b[1], b[2] + (('downcast', rest[4:].strip()),))
                else:
                    raise MirError('place: ' + inner)
            self.i = close + 1
        else:
            raise MirError('place: ' + s[self.i:self.i + 60])
        while self.i < len(s) and s[self.i] == '[':
            close = match_close(s, self.i)
            inner = s[self.i + 1:close]
            if re.match(r'^_\d+$', inner):
                pr = ('index', int(inner[1:]))
            elif re.match(r'^-?\d+ of \d+$', inner):
                a, b2 = inner.split(' of ')
                pr = ('cindex', int(a), int(b2))
            else:
                m = re.match(r'^(\d*):(-?\d*)$', inner)
                if not m:
                    raise MirError('index: ' + inner)
                pr = ('subslice', int(m.group(1) or 0), m.group(2))
            base = (base[0], base[1], base[2] + (pr,))
            self.i = close + 1
        return base

    def operand(self):
        s = self.s
        if s.startswith('move ', self.i):
            self.i += 5
            return ('move', self.place())
        if s.startswith('copy ', self.i):
            self.i += 5
            return ('copy', self.place())
        if s.startswith('const ', self.i):
            self.i += 6
            return ('const', self.const())
        if s[self.i] == '_' or s[self.i] == '(':
            return ('copy', self.place())
        return ('const', self.const())

    def const(self):
        """Reads a constant up to a top-level ',' ')' ']' ';' or ' as ' / end."""
        s, i = self.s, self.i
        start = i
        if s[i] == '"':
            e = skip_string(s, i)
            self.i = e
            return ('str', unescape(s[i + 1:e - 1]))
        if s.startswith('b"', i):
            e = skip_string(s, i + 1)
            self.i = e
            return ('bytes', unescape(s[i + 2:e - 1]))
        e = is_char_lit(s, i) if s[i] == "'" else None
        if e:
            self.i = e
            return ('char', ord(unescape(s[i + 1:e - 1])))
        m = re.compile(r'(true|false)\b').match(s, i)
        if m:
            self.i = m.end()
            return ('bool', m.group(1) == 'true')
        m = re.compile(r'(-?\d+)_([iu](?:8|16|32|64|128|size))').match(s, i)
        if m:
            self.i = m.end()
            return ('int', int(m.group(1)), m.group(2))
        m = re.compile(r'([iu](?:8|16|32|64|128|size))::(MAX|MIN)').match(s, i)
        if m:
            self.i = m.end()
            w = m.group(1)
            bits = 64 if w.endswith('size') else int(w[1:])
            if w[0] == 'u':
                v = (1 << bits) - 1 if m.group(2) == 'MAX' else 0
            else:
                v = (1 << (bits - 1)) - 1 if m.group(2) == 'MAX' else -(1 << (bits - 1))
            return ('int', v, w)
        if s.startswith('()', i):
            self.i = i + 2
            return ('unit',)
        depth = 0
        while i < len(s):
            c = s[i]
            if depth == 0 and (c in ',)];' or s.startswith(' as ', i) or s.startswith(' -> ', i)):
                break
            if c == '"':
                i = skip_string(s, i)
                continue
            if c in '([{<':
                depth += 1
            elif c == '>' and s[i - 1] in '-=':
                pass
            elif c in ')]}>':
                depth -= 1
            i += 1
        txt = s[start:i].strip()
        self.i = i
        return ('path', txt)

def parse_operand(s):
    p = P(s.strip())
    o = p.operand()
    if p.i != len(p.s):
        raise MirError('operand: ' + s)
    return o

def parse_place(s):
    p = P(s.strip())
    o = p.place()
    if p.i != len(p.s):
        raise MirError('place: ' + s)
    return o

BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt',
          'Le', 'Ne', 'Ge', 'Gt', 'Offset', 'Cmp', 'CheckedAdd', 'CheckedSub', 'CheckedMul',
          'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}

def parse_rvalue(s):
    s = s.strip()
    if s.startswith('move ') or s.startswith('copy ') or s.startswith('const ') or re.match(r'_\d', s) or (s.startswith('(') and re.match(r'\((\*|\(|_\d)', s) and _is_place(s)):
        p = P(s)
        o = p.operand()
        rest = s[p.i:]
        if not rest:
            return ('use', o)
        if rest.startswith(' as '):
            j = _last_group(rest)
            if j is None or not rest.endswith(')'):
                raise MirError('cast: ' + s)
            return ('cast', o, rest[4:j].strip(), rest[j + 1:-1])
        raise MirError('rvalue: ' + s)
    if re.search(r' \(PointerCoercion\(\w+(\(\w+\))?\)\)$', s) and not s.startswith('{closure@'):
        i = find_top(s, ' as ')
        j = _last_group(s)
        return ('cast', ('const', ('path', s[:i])), s[i + 4:j].strip(), s[j + 1:-1])
    if s.startswith('&raw '):
        m = re.match(r'^&raw (const|mut) (.*)$', s, re.S)
        return ('ref', True, parse_place(m.group(2)))
    if s.startswith('&mut '):
        return ('ref', True, parse_place(s[5:]))
    if s.startswith('&'):
        return ('ref', False, parse_place(s[1:]))
    if s.startswith('deref_copy '):
        return ('use', ('copy', parse_place(s[11:])))
    m = re.match(r'^([A-Za-z]+)\(', s)
    if m and match_close(s, m.end() - 1) == len(s) - 1:
        name, inner = m.group(1), s[m.end():-1]
        if name in BINOPS:
            a, b = split_top(inner)
            return ('bin', name, parse_operand(a), parse_operand(b))
        if name in ('Not', 'Neg'):
            return ('un', name, parse_operand(inner))
        if name == 'discriminant':
            return ('discr', parse_place(inner))
        if name == 'Len':
            return ('len', parse_place(inner))
        if name in ('SizeOf', 'AlignOf'):
            return ('const', ('int', 1, 'usize'))
        if name == 'ShallowInitBox':
            return ('newbox', split_top(inner)[1])
    if s == '()':
        return ('tuple', [])
    if s.startswith('(') and match_close(s, 0) == len(s) - 1:
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('[') and match_close(s, 0) == len(s) - 1:
        parts = split_top(s[1:-1], ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1])
        return ('array', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('{closure@'):
        c = match_close(s, 0)
        cid = s[:c + 1]
        rest = s[c + 1:].strip()
        caps = []
        if rest:
            caps = [parse_operand(f.split(': ', 1)[1]) for f in split_top(rest[1:-1])]
        return ('closure', cid, caps)
    # aggregate
    i = find_top(s, ' {')
    if i > 0 and s.endswith('}'):
        fields = []
        for f in split_top(s[i + 2:-1]):
            k, v = f.split(': ', 1)
            fields.append((k, parse_operand(v)))
        return ('adt', s[:i], fields)
    i = find_top(s, '(')
    if i > 0 and s.endswith(')'):
        return ('adt', s[:i], [(str(k), parse_operand(x)) for k, x in enumerate(split_top(s[i + 1:-1]))])
    return ('adt', s, [])

def _is_place(s):
    try:
        p = P(s)
        p.place()
        return p.i == len(s) or s[p.i:].startswith(' as ')
    except (MirError, IndexError, AttributeError):
        return False

# ---------------------------------------------------------------- bodies
class Body:
    __slots__ = ('name', 'header', 'text', 'nargs', 'argtys', 'retty', 'locals', 'blocks', 'debug',
                 'crate', '_parsed', 'line')

    def __init__(self, crate, header, text):
        self.crate, self.header, self.text, self._parsed = crate, header, text, False
        self.parse_header()

    def parse_header(self):
        h = self.header
        if h.startswith('fn '):
            i = find_top(h, '(', 3)
            self.name = h[3:i]
            c = match_close(h, i)
            args = split_top(h[i + 1:c])
            self.argtys = [a.split(': ', 1)[1] for a in args]
            self.nargs = len(args)
            m = re.match(r'^ -> (.*) \{$', h[c + 1:], re.S)
            self.retty = m.group(1) if m else '()'
        else:
            m = re.match(r'^(?:const|static|static mut|promoted\[\d+\] in) (.*)$', h)
            h2 = m.group(1)
            i = find_top(h2, ': ')
            self.name = h2[:i]
            self.retty = h2[i + 2:].rsplit(' = {', 1)[0]
            self.argtys, self.nargs = [], 0

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        self.locals, self.blocks, self.debug = {}, {}, []
        self.locals[0] = self.retty
        for k, t in enumerate(self.argtys):
            self.locals[k + 1] = t
        cur = None
        pend = ''
        for raw in self.text:
            line = raw.strip()
            if not line:
                continue
            if cur is None:
                m = re.match(r'^let (?:mut )?_(\d+): (.*);$', line)
                if m:
                    self.locals[int(m.group(1))] = m.group(2)
                    continue
                m = re.match(r'^debug (.*) => (.*);$', line)
                if m:
                    self.debug.append((m.group(1), m.group(2)))
                    continue
                m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', line)
                if m:
                    cur = (int(m.group(1)), bool(m.group(2)))
                    self.blocks[cur[0]] = []
                    pend = ''
                continue
            if line == '}' and not pend:
                cur = None
                continue
            if cur[1]:
                continue
            pend = pend + ('\n' if pend else '') + line
            if pend.endswith(';'):
                self.blocks[cur[0]].append(pend[:-1])
                pend = ''
        return self

    def block(self, n):
        b = self.blocks[n]
        if b and isinstance(b[0], str):
            b = [x for x in (parse_stmt(t) for t in b) if x is not None]
            self.blocks[n] = b
        return b

TARGETS = re.compile(r'bb(\d+)')

def parse_stmt(t):
    if t.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention', 'Coverage',
                     'AscribeUserType', 'ConstEvalCounter', 'Retag', 'assume(')):
        return None
    if t.startswith('goto -> '):
        return ('goto', int(t[10:]))
    if t == 'return':
        return ('return',)
    if t == 'unreachable':
        return ('unreachable',)
    if t.startswith('resume') or t.startswith('terminate'):
        return ('resume',)
    if t.startswith('switchInt('):
        c = match_close(t, 9)
        op = parse_operand(t[10:c])
        m = re.match(r'^ -> \[(.*)\]$', t[c + 1:])
        tg = []
        other = None
        for x in m.group(1).split(', '):
            k, v = x.split(': ')
            if k == 'otherwise':
                other = int(v[2:])
            else:
                tg.append((int(k), int(v[2:])))
        return ('switch', op, tg, other)
    if t.startswith('drop('):
        c = match_close(t, 4)
        m = re.search(r'return: bb(\d+)', t[c:])
        return ('drop', parse_place(t[5:c]), int(m.group(1)))
    if t.startswith('assert('):
        c = match_close(t, 6)
        parts = split_top(t[7:c])
        neg = parts[0].startswith('!')
        m = re.search(r'success: bb(\d+)', t[c:])
        return ('assert', neg, parse_operand(parts[0].lstrip('!')), parts[1], int(m.group(1)))
    if t.startswith('falseEdge') or t.startswith('falseUnwind'):
        m = re.search(r'bb(\d+)', t)
        return ('goto', int(m.group(1)))
    if t.startswith('discriminant('):
        c = match_close(t, 12)
        m = re.match(r'^ = (\d+)$', t[c + 1:])
        return ('setdiscr', parse_place(t[13:c]), int(m.group(1)))
    if t.startswith('Deinit('):
        return None
    # assignment or call
    p = P(t)
    dest = p.place()
    if not t.startswith(' = ', p.i):
        raise MirError('stmt: ' + t)
    rhs = t[p.i + 3:]
    i = find_top(rhs, ') -> ')
    m = re.search(r'\) -> (\[return: bb(\d+)(?:, [^\]]*)?\]|unwind [a-z:() 0-9]+|bb\d+|\[return: bb\d+\])$', rhs)
    if m and not rhs.startswith(('{closure@',)) or (m and rhs.startswith('{closure@')):
        callpart = rhs[:m.start() + 1]
        # find the argument list: the last top-level '(' group
        j = _last_group(callpart)
        func = callpart[:j]
        args = [parse_operand(a) for a in split_top(callpart[j + 1:-1])]
        mm = re.search(r'return: bb(\d+)', m.group(1))
        return ('call', dest, func, args, int(mm.group(1)) if mm else None)
    return ('assign', dest, parse_rvalue(rhs))

def _last_group(s):
    """index of the '(' matching the final ')'."""
    i, last = 0, None
    depth = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'":
            e = is_char_lit(s, i)
            if e:
                i = e
                continue
        if c in '([{<':
            if depth == 0 and c == '(':
                last = i
            depth += 1
        elif c == '>' and i and s[i - 1] in '-=':
            pass
        elif c in ')]}>':
            depth -= 1
        i += 1
    return last

# ---------------------------------------------------------------- crates
IMPL_AT = re.compile(r'<impl at ([^:<>]+):(\d+):(\d+): (\d+):(\d+)>')

RENAME = [(re.compile(r'\btoml_edit::(Item|Value|Table|InlineTable|DocumentMut|Array)\b'), r'toml_edit::TomlEdit\1'),
          (re.compile(r'\btoml::Value\b'), 'toml::TomlValue'),
          (re.compile(r'\btoml::map::Map\b'), 'toml::map::BTreeMap'),
          (re.compile(r'\bserde_json::Map\b'), 'serde_json::BTreeMap')]

def rename(s):
    """gives type names that collide with other crates' a distinct name (applied to the MIR text and to declared field types)"""
    for rx, to in RENAME:
        s = rx.sub(to, s)
    return s

class Crate:
    def __init__(self, name, path, repo):
        self.name, self.repo = name, repo
        self.bodies = {}      # canonical key -> Body
        self.closures = {}    # '{closure@..}' -> Body
        self.impl_cache = {}
        self.src_cache = {}
        self.load(path)

    def src(self, f):
        if f not in self.src_cache:
            with open(os.path.join(self.repo, f)) as fh:
                self.src_cache[f] = fh.read().split('\n')
        return self.src_cache[f]

    def impl_of(self, f, l1, c1, l2, c2):
        """Resolve `<impl at file:span>` to (type, trait or None)."""
        key = (f, l1, c1)
        if key in self.impl_cache:
            return self.impl_cache[key]
        lines = self.src(f)
        seg = lines[l1 - 1:l2]
        if l1 == l2:
            txt = seg[0][c1 - 1:c2 - 1]
        else:
            txt = '\n'.join([seg[0][c1 - 1:]] + seg[1:-1] + [seg[-1][:c2 - 1]])
        txt = ' '.join(txt.split())
        if txt.startswith('impl') or txt.startswith('unsafe impl'):
            h = re.sub(r'^(unsafe )?impl\s*', '', txt)
            if h.startswith('<'):
                h = h[match_close(h, 0) + 1:].strip()
            h = re.split(r'\bwhere\b', h)[0].strip().rstrip('{').strip()
            i = find_top(h, ' for ')
            if i >= 0:
                res = (short(h[i + 5:]), short(h[:i], keep_generics=True))
            else:
                res = (short(h), None)
        else:
            # derive: look for the item that follows
            k = l1 - 1
            ty = None
            while k < len(lines):
                m = re.match(r'\s*(?:pub(?:\([^)]*\))? )?(?:struct|enum|union) ([A-Za-z0-9_]+)', lines[k])
                if m:
                    ty = m.group(1)
                    break
                k += 1
            res = (ty, txt)
        self.impl_cache[key] = res
        return res

    def canon_def(self, name):
        m = IMPL_AT.search(name)
        if not m:
            return name
        # closures or nested impls: only the last impl matters for the key, prefix is dropped
        ms = list(IMPL_AT.finditer(name))
        m = ms[-1]
        ty, tr = self.impl_of(m.group(1), *(int(m.group(k)) for k in range(2, 6)))
        rest = name[m.end():]
        if tr is None:
            return f'{ty}{rest}'
        return f'<{ty} as {tr}>{rest}'

    def unique_closures(self, lines):
        """Closures written by one macro share their span, which is all that MIR says of a closure's type: give each a name of its own.  A closure
        belongs to the function it is a child of; several of one function are told apart by the order of their construction, which has to agree with
        that of the locals they are put in and with the types of what they capture; else the name stays without a body."""
        heads = {}
        for i, ln in enumerate(lines):
            if ln.startswith('fn ') and '{closure#' in ln:
                m = re.match(r'fn (.*?)\(_1: [^{,]*(\{closure@[^}]*\})', ln)
                if m:
                    heads.setdefault(m.group(2), []).append((i, m.group(1)))
        multi = {c: hs for c, hs in heads.items() if len(hs) > 1}
        if not multi:
            return lines
        num = {}
        for c, hs in sorted(multi.items()):
            for k, (i, name) in enumerate(hs):
                num[c, name] = c[:-1] + f' ##{k}}}'
        spans = [(i, re.match(r'fn (.*?)\((?:_1: |\) )', ln)) for i, ln in enumerate(lines) if ln.startswith('fn ') and ln.endswith('{')]
        out = list(lines)
        for i, m in spans:
            if not m:
                continue
            name = m.group(1)
            j = i + 1
            while lines[j] != '}':
                j += 1
            text = lines[i:j]
            here = {c for ln in text if '{closure@' in ln for c in re.findall(r'\{closure@[^}]*\}', ln) if c in multi}
            for c in here:
                own_ = name if (c, name) in num else None
                kids = sorted([nm for _, nm in multi[c] if nm.startswith(name + '::{closure#') and nm.count('{closure#') == name.count('{closure#') + 1], key=lambda nm: int(re.search(r'#(\d+)\}$', nm).group(1)))
                if own_ and not kids:
                    text = [ln.replace(c, num[c, own_]) for ln in text]
                elif len(kids) == 1 and not own_:
                    text = [ln.replace(c, num[c, kids[0]]) for ln in text]
                elif kids and not own_:
                    sites = [k for k, ln in enumerate(text) if re.match(r'\s+_\d+ = ' + re.escape(c), ln) or ('const ZeroSized: ' + c) in ln or ('const ' + c) in ln]
                    dest = [int(m2.group(1)) for k in sites for m2 in [re.match(r'\s+_(\d+) = ' + re.escape(c), text[k])] if m2]
                    ok = len(sites) == len(kids) and (not dest or len(dest) == len(sites) and dest == sorted(dest))
                    if ok:
                        ok = all(self.captures_agree(lines, text, text[k], c, [h for h, nm in multi[c] if nm == kid][0]) for k, kid in zip(sites, kids))
                    for q, k in enumerate(sites):
                        text[k] = text[k].replace(c, num[c, kids[q]] if ok else c[:-1] + ' ##?}')
            out[i:j] = text
        return out

    def captures_agree(self, lines, text, site, c, head):
        caps = re.search(re.escape(c) + r' \{ (.*) \};', site)
        for nm, loc in re.findall(r'(\w+): (?:move|copy) _(\d+)', caps.group(1) if caps else ''):
            ty = [m.group(1) for ln in text for m in [re.match(r'\s+let (?:mut )?_' + loc + r': (.*);$', ln)] if m]
            k = head + 1
            while lines[k] != '}' and not lines[k].startswith('    bb0'):
                m = re.match(r'\s+debug ' + nm + r' => \(?\*?\((?:\(\*_1\)|_1)\.\d+: (.*?)\)\)?;$', lines[k])
                if m and ty and m.group(1) != ty[0]:
                    return False
                k += 1
        return True

    def load(self, path):
        with open(path) as fh:
            lines = self.unique_closures(rename(fh.read()).split('\n'))
        i, n = 0, len(lines)
        self.statics = {}
        while i < n:
            ln = lines[i]
            if ln.startswith('alloc'):
                m = re.match(r'(alloc\d+) \(static: (.*?), size: ', ln)
                if m:
                    self.statics[m.group(1)] = self.canon_def(m.group(2))
            if ln.startswith(('fn ', 'const ', 'static ', 'promoted[')) and ln.endswith('{'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                try:
                    b = Body(self.name, ln, lines[i + 1:j])
                except (MirError, AttributeError, IndexError, ValueError):
                    i = j + 1
                    continue
                key = self.canon_def(b.name)
                self.bodies.setdefault(key, b)
                if b.argtys and '{closure#' in b.name:
                    t = b.argtys[0]
                    k = t.find('{closure@')
                    if k >= 0:
                        self.closures.setdefault(t[k:match_close(t, k) + 1], b)
                i = j + 1
                continue
            i += 1
        # index by last two path components for resolution of call paths
        self.index = {}
        for k, b in self.bodies.items():
            self.index.setdefault(def_key(k), []).append(b)

def short(t, keep_generics=False):
    """Short name of a type/trait text: last path segment, generics dropped."""
    t = strip_lifetimes(t.strip())
    while t.startswith('&'):
        t = t[1:].replace('mut ', '', 1) if t.startswith('&mut ') else t[1:]
    i = find_top(t, '<')
    gen = ''
    if i > 0:
        gen = t[i:]
        t = t[:i].rstrip(':')
    t = t.split('::')[-1]
    if keep_generics and gen:
        args = split_top(gen[1:-1])
        return f"{t}<{', '.join(short(a, True) for a in args)}>"
    return t

def def_key(path):
    """Key of a canonical definition name or a call path, insensitive to module prefixes,
    generic arguments and lifetimes: a tuple of segments."""
    p = strip_lifetimes(path.strip())
    segs = []
    if p.startswith('<'):
        c = match_close(p, 0)
        inner = p[1:c]
        i = find_top(inner, ' as ')
        if i >= 0:
            segs.append(('as', short(inner[:i]), short(inner[i + 4:])))
        else:
            segs.append(short(inner))
        p = p[c + 1:]
        rest = [x for x in split_top(p, '::') if x]
        rest = [x for x in rest if not x.startswith('<')]
        return tuple(segs) + tuple(rest)
    parts = [x for x in split_top(p, '::') if x]
    parts = [x for x in parts if not x.startswith('<')]
    parts = [x if x.startswith('{') else (x[:x.index('<')] if '<' in x else x) for x in parts]
    return tuple(parts)
