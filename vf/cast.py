"""Front end: the real /repo sources -> typed AST, by clang (-ast-dump=json), on every run."""
import json, subprocess, os, re, hashlib

class CT:
    """A C type."""
    __slots__ = ('k', 'bits', 'signed', 'to', 'n', 'name', 'args')
    def __init__(s, k, bits=0, signed=False, to=None, n=None, name=None, args=None):
        s.k, s.bits, s.signed, s.to, s.n, s.name, s.args = k, bits, signed, to, n, name, args
    def __repr__(s):
        if s.k == 'float': return 'f%d' % s.bits
        if s.k == 'int': return ('s' if s.signed else 'u') + str(s.bits)
        if s.k == 'ptr': return repr(s.to) + '*'
        if s.k == 'array': return '%r[%s]' % (s.to, s.n)
        if s.k == 'struct': return 'struct ' + s.name
        return s.k
    def __eq__(s, o): return isinstance(o, CT) and repr(s) == repr(o)
    def __hash__(s): return hash(repr(s))
    @property
    def lo(s): return -(1 << (s.bits - 1)) if s.signed else 0
    @property
    def hi(s): return (1 << (s.bits - 1)) - 1 if s.signed else (1 << s.bits) - 1
    def isint(s): return s.k in ('int', 'bool')
    def ischar(s): return s.k == 'int' and s.bits == 8

BOOL = CT('bool', 1, False)
INT = CT('int', 32, True)
UINT = CT('int', 32, False)
CHAR = CT('int', 8, True)
UCHAR = CT('int', 8, False)
LONG = CT('int', 64, True)
ULONG = CT('int', 64, False)
VOID = CT('void')
_base = {
    'char': CHAR, 'signed char': CHAR, 'unsigned char': UCHAR, 'short': CT('int', 16, True), 'unsigned short': CT('int', 16, False),
    'int': INT, 'unsigned int': UINT, 'long': LONG, 'unsigned long': ULONG, 'long long': LONG, 'unsigned long long': ULONG,
    '_Bool': BOOL, 'bool': BOOL, 'void': VOID, 'float': CT('float', 32), 'double': CT('float', 64), 'long double': CT('float', 80),
    '__int128': CT('int', 128, True), 'unsigned __int128': CT('int', 128, False),
    'va_list': CT('va_list'), '__builtin_va_list': CT('va_list'), '__va_list_tag': CT('va_list'), 'struct __va_list_tag': CT('va_list'),
    'unsigned': UINT,
}

class Node:
    __slots__ = ('kind', 'ty', 'inner', 'j', 'line', 'file')
    def __repr__(s):
        return '<%s@%s>' % (s.kind, s.line)

class Func:
    pass

class ParseError(Exception): pass

class TU:
    def __init__(self, path, cflags, incs=()):
        self.path = path
        cmd = ['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-std=gnu99', '-D__NO_CTYPE'] + list(cflags) + [path]
        self.cmd = ' '.join(cmd)
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
        if r.returncode != 0:
            raise ParseError('clang failed on %s:\n%s' % (path, r.stderr[-3000:]))
        self.root = json.loads(r.stdout)
        self.typedefs = {}
        self.records = {}      # name -> [(field, CT)]
        self.funcs = {}        # name -> Func (with body)
        self.protos = {}
        self.globals = {}
        self.enums = {}
        self.const = set()
        self._file = None
        self._line = 0
        self._tcache = {}
        self.anon = {}
        for d in self.root.get('inner', []):
            self._decl(d)

    # ---- locations are delta-encoded
    def _loc(self, loc):
        if not loc: return
        for key in ('spellingLoc', 'expansionLoc'):
            if key in loc: self._loc(loc[key])
        if 'expansionLoc' in loc or 'spellingLoc' in loc: return
        if 'file' in loc: self._file = loc['file']
        if 'line' in loc: self._line = loc['line']

    def _decl(self, d):
        k = d.get('kind')
        self._loc(d.get('loc', {})); self._loc(d.get('range', {}).get('begin', {}))
        file, line = self._file, self._line
        if k == 'TypedefDecl':
            self.typedefs[d['name']] = d['type'].get('desugaredQualType', d['type']['qualType'])
            for c in d.get('inner', []):
                dd = (c.get('ownedTagDecl') or (c.get('inner') or [{}])[0].get('decl') or c.get('decl') or {})
                if dd.get('id') in self.anon and not dd.get('name'):
                    self.records[d['name']] = self.anon[dd['id']]
                    self.typedefs[d['name']] = 'struct ' + d['name']
        elif k == 'RecordDecl':
            fs = []
            for c in d.get('inner', []):
                if c.get('kind') == 'FieldDecl':
                    fs.append((c.get('name'), c['type'].get('desugaredQualType', c['type']['qualType'])))
            if d.get('completeDefinition'):
                key = d.get('name')
                if key: self.records[key] = (d.get('tagUsed', 'struct'), fs)
                self.anon[d['id']] = (d.get('tagUsed', 'struct'), fs)
        elif k == 'EnumDecl':
            v = 0
            for c in d.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    for e in c.get('inner', []):
                        if 'value' in e: v = int(e['value'])
                    self.enums[c['name']] = v; v += 1
        elif k == 'FunctionDecl':
            f = Func()
            f.name = d['name']; f.file = file; f.line = line; f.tu = self
            f.static = d.get('storageClass') == 'static'
            f.qual = d['type']['qualType']
            f.variadic = bool(d.get('variadic'))
            f.params = []; f.body = None
            for c in d.get('inner', []):
                if c['kind'] == 'ParmVarDecl':
                    self._loc(c.get('loc', {})); self._loc(c.get('range', {}).get('begin', {}))
                    f.params.append((c.get('name', '_p%d' % len(f.params)), c['id'], self.ctype(c['type'])))
                elif c['kind'] == 'CompoundStmt':
                    f.body = self._node(c)
            t = self.ctype_s(f.qual)
            f.ret = t.to
            if f.body is not None: self.funcs[f.name] = f
            self.protos[f.name] = f
        elif k == 'VarDecl':
            init = None
            for c in d.get('inner', []):
                if 'kind' in c and not c['kind'].endswith('Attr'): init = self._node(c)
            if re.match(r'const\b|.*\*\s*const\b', d['type']['qualType']): self.const.add(d['name'])
            self.globals[d['id']] = self.globals[d['name']] = (d['name'], self.ctype(d['type']), init)
        elif k in ('LinkageSpecDecl',):
            for c in d.get('inner', []): self._decl(c)

    def _node(self, d):
        n = Node()
        n.kind = d.get('kind')
        if n.kind is None:
            n.kind = 'Empty'
        self._loc(d.get('loc', {}))
        r = d.get('range', {})
        self._loc(r.get('begin', {}))
        n.line, n.file = self._line, self._file
        n.j = d
        n.ty = None
        n.inner = []
        if n.kind == 'GenericSelectionExpr':
            # keep only the selected association
            sel = None
            for c in d.get('inner', []):
                if c.get('selected') or c.get('associationKind') and c.get('selected'):
                    sel = c
            inner = []
            for c in d.get('inner', []):
                x = self._node(c) if 'kind' in c or c.get('selected') else None
                if c is sel:
                    inner = [y for y in x.inner if y.kind and (y.kind.endswith('Expr') or y.kind.endswith('Operator') or y.kind.endswith('Literal'))]
            n.inner = inner[-1:]
            if not n.inner: raise ParseError('unselected _Generic')
        else:
            for c in d.get('inner', []):
                if isinstance(c, dict):
                    n.inner.append(self._node(c))
        self._loc(r.get('end', {}))
        return n

    def nty(self, n):
        if n.ty is None:
            t = n.j.get('type')
            n.ty = self.ctype(t) if t else VOID
        return n.ty

    def ctype(self, t):
        return self.ctype_s(t.get('desugaredQualType') or t['qualType'])

    def ctype_s(self, s):
        if s in self._tcache: return self._tcache[s]
        r = self._parse(s)
        self._tcache[s] = r
        return r

    def _parse(self, s):
        s = s.strip()
        s0 = s
        s = re.sub(r'\b(const|volatile|restrict|__restrict|_Nonnull|_Nullable|register|static|extern|inline)\b', ' ', s)
        s = re.sub(r'__attribute__\s*\(\(.*?\)\)', ' ', s)
        s = re.sub(r'\s+', ' ', s).strip()
        if s.endswith(')') or s.endswith(']') or '(' in s:
            return self._declarator(s)
        if s.endswith('*'):
            return CT('ptr', 64, to=self._parse(s[:-1]))
        if s in _base: return _base[s]
        m = re.match(r'^(struct|union|enum) (.+)$', s)
        if m:
            if m.group(1) == 'enum': return UINT
            if m.group(2) == '__va_list_tag': return CT('va_list')
            return CT('struct', name=m.group(2))
        if s in self.typedefs:
            u = self.typedefs[s]
            if re.sub(r'^(struct|union) ', '', u) == s and s in self.records: return CT('struct', name=s)
            if u == s: return CT('struct', name=s)
            return self.ctype_s(u)
        if s in self.records: return CT('struct', name=s)
        if s.startswith('__va_list'): return CT('va_list')
        return CT('struct', name=s)

    def _declarator(self, s):
        # find the innermost declarator: "(*" ... or plain suffixes
        m = re.search(r'\((\s*\*+)\s*(\[[^\]]*\]\s*)*\)', s)
        if m and '(' in s[:m.start()]: m = None     # a function pointer inside a parameter list
        if m:
            base = s[:m.start()].strip(); suffix = s[m.end():].strip()
            t = self._suffix(self.ctype_s(base), suffix)
            for _ in range(m.group(1).count('*')): t = CT('ptr', 64, to=t)
            inner_arr = re.search(r'\*\s*((\[[^\]]*\]\s*)+)', m.group(0))
            if inner_arr: t = self._suffix(t, inner_arr.group(1).strip())
            return t
        i = min([x for x in (s.find('['), s.find('(')) if x >= 0])
        if s.startswith(('struct (', 'union (', 'enum (')):
            return CT('struct', name=s)
        return self._suffix(self.ctype_s(s[:i].strip()), s[i:].strip())

    def _suffix(self, t, suf):
        if not suf: return t
        if suf[0] == '[':
            j = suf.index(']')
            n = suf[1:j].strip()
            inner = self._suffix(t, suf[j+1:].strip())
            return CT('array', to=inner, n=int(n) if n.isdigit() else None)
        if suf[0] == '(':
            depth = 0
            for j, ch in enumerate(suf):
                if ch == '(': depth += 1
                elif ch == ')':
                    depth -= 1
                    if depth == 0: break
            return CT('func', to=t, args=suf[1:j])
        raise ParseError('type suffix ' + suf)

    # ---- layout
    def sizeof(self, t):
        if t.k == 'int': return t.bits // 8
        if t.k == 'bool': return 1
        if t.k == 'ptr': return 8
        if t.k == 'float': return {32: 4, 64: 8, 80: 16}[t.bits]
        if t.k == 'va_list': return 24
        if t.k == 'array': return (t.n or 0) * self.sizeof(t.to)
        if t.k == 'void' or t.k == 'func': return 1
        if t.k == 'struct':
            tag, fs = self.record(t)
            off = 0; mx = 1; big = 0
            for n, ft in fs:
                ft = self.ctype_s(ft); a = self.alignof(ft); z = self.sizeof(ft)
                mx = max(mx, a); big = max(big, z)
                off = (off + a - 1) // a * a + z
            if tag == 'union': off = big
            return (off + mx - 1) // mx * mx
        raise ParseError('sizeof ' + repr(t))

    def alignof(self, t):
        if t.k == 'array': return self.alignof(t.to)
        if t.k == 'struct':
            return max([1] + [self.alignof(self.ctype_s(ft)) for n, ft in self.record(t)[1]])
        return self.sizeof(t)

    def record(self, t):
        if t.name not in self.records: raise ParseError('unknown record ' + t.name)
        return self.records[t.name]

    def fields(self, t):
        return [(n, self.ctype_s(ft)) for n, ft in self.record(t)[1]]
