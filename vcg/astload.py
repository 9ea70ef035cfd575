"""Load clang's typed AST of /repo's current sources.

Only top-level declarations whose location is inside the source directory are kept (declarations of
the standard library are dropped: the executor gives them trusted contracts).  Nothing else is
dropped or rewritten."""
import json, os, re, subprocess, hashlib
from concurrent.futures import ProcessPoolExecutor

SRC = os.environ.get('VERIF_SRC', '/repo/src')
CLANG = ['clang++', '-std=c++17', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-w']
_file_re = re.compile(r'"(file|includedFrom)": ("(?:[^"\\]|\\.)*"|\{)')


class ExtractionError(Exception):
    pass


def _chunks(text):
    """top-level declarations of the dump, as (is_in_src, file, text)"""
    out = []
    start = text.find('\n    {\n')
    pos = start + 1
    cur = None
    while pos > 0:
        end = text.find('\n    }', pos)
        if end < 0:
            break
        chunk = text[pos:end + 6]
        first = None
        last = None
        # file of the declaration's own location: the first "loc" object
        head_end = chunk.find('"range"')
        skip = False
        for m in _file_re.finditer(chunk):
            if m.group(1) == 'includedFrom':
                skip = True
                continue
            if skip:
                skip = False
                continue
            f = m.group(2)[1:-1]
            if m.start() < head_end:
                first = f  # expansionLoc comes after spellingLoc
            last = f
        f = first or cur
        if last:
            cur = last
        out.append((f, chunk))
        nxt = text.find('\n    {\n', end)
        if nxt < 0:
            break
        pos = nxt + 1
    return out


def load_tu(path):
    p = subprocess.run(CLANG + ['-I' + SRC, path], capture_output=True, text=True, errors='replace')
    if p.returncode != 0:
        raise ExtractionError('clang failed on %s: %s' % (path, p.stderr[-2000:]))
    src = os.path.realpath(SRC) + '/'
    decls = []
    for f, c in _chunks(p.stdout):
        if f and (os.path.realpath(f) + '').startswith(src):
            decls.append((f, json.loads(c)))
    return path, decls


def _load_tu_safe(path):
    try:
        return load_tu(path)
    except ExtractionError as e:
        return path, str(e)


class Func:
    __slots__ = ('name', 'qname', 'mangled', 'node', 'body', 'params', 'cls', 'rtype', 'file', 'virtual', 'static', 'inits', 'kind', 'tu', 'const')

    def __repr__(self):
        return 'Func(%s)' % self.sig()

    def sig(self):
        return '%s(%s)%s' % (self.qname, ', '.join(p['type']['qualType'] for p in self.params), ' const' if self.const else '')


class Record:
    def __init__(self, name):
        self.name = name
        self.fields = []     # (name, qualtype, initnode)
        self.bases = []
        self.methods = {}    # name -> list of mangled
        self.complete = False
        self.has_user_copy = False


class Program:
    def __init__(self):
        self.funcs = {}       # mangled -> Func (with body)
        self.decls = {}       # mangled -> Func (declaration only)
        self.byid = {}        # (tu, id) -> mangled  | for vars: node
        self.records = {}
        self.globals = {}
        self.files = []
        self.aliases = {}     # private names changed since the contracts were written: new name -> name used there

    # ---- building
    def add_tu(self, tu, decls):
        self.files.append(tu)
        self._tu = tu
        for f, d in decls:
            self._decl(d, '', None, f)

    def _decl(self, d, ns, cls, f):
        k = d.get('kind')
        tu = self._tu
        if k == 'NamespaceDecl':
            n = d.get('name', '')
            for c in d.get('inner', []):
                self._decl(c, ns + n + '::', cls, f)
        elif k == 'LinkageSpecDecl':
            for c in d.get('inner', []):
                self._decl(c, ns, cls, f)
        elif k in ('CXXRecordDecl',):
            n = d.get('name')
            if not n:
                return
            q = ns + n
            self.byid[(tu, d['id'])] = ('record', q)
            r = self.records.setdefault(q, Record(q))
            if not d.get('completeDefinition'):
                return
            first = not r.complete
            r.complete = True
            if first:
                for b in d.get('bases', []):
                    r.bases.append(b['type'].get('desugaredQualType', b['type']['qualType']))
            for c in d.get('inner', []):
                ck = c.get('kind')
                if ck == 'FieldDecl':
                    if first:
                        init = c.get('inner', [None])[-1] if c.get('hasInClassInitializer') else None
                        r.fields.append((c['name'], tyname(c['type']), init, tu))
                    self.byid[(tu, c['id'])] = ('field', q, c['name'])
                elif ck in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl', 'CXXRecordDecl', 'EnumDecl', 'VarDecl'):
                    self._decl(c, q + '::', q, f)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            self._func(d, ns, cls, f)
        elif k == 'VarDecl':
            self.byid[(tu, d['id'])] = ('global', ns + d['name'], d)
            if d.get('inner'):
                self.globals[ns + d['name']] = (tu, d)
        elif k == 'EnumDecl':
            v = -1
            for c in d.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    val = _const(c)
                    v = val if val is not None else v + 1
                    self.byid[(tu, c['id'])] = ('enum', v)

    def _func(self, d, ns, cls, f):
        tu = self._tu
        m = d.get('mangledName')
        if m is None:
            m = ns + d['name'] + d['type']['qualType']
        fn = Func()
        prev = d.get('previousDecl')
        pd = self.byid.get((tu, prev)) if prev else None
        if pd and pd[0] == 'func':
            m = pd[1]
        fn.mangled = m
        fn.name = d['name']
        fn.kind = d['kind']
        if pd and pd[0] == 'func' and m in self.decls:
            fn.cls = self.decls[m].cls
            fn.qname = self.decls[m].qname
            fn.virtual = self.decls[m].virtual
            fn.static = self.decls[m].static
        else:
            fn.cls = cls
            fn.qname = ns + d['name']
            fn.virtual = bool(d.get('virtual'))
            fn.static = d.get('storageClass') == 'static'
        fn.node = d
        fn.file = f
        fn.tu = tu
        fn.params = [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        qt = d['type']['qualType']
        fn.rtype = qt[:qt.index('(')].strip()
        fn.const = qt.rstrip().endswith('const') or ' const' in qt[qt.rindex(')'):]
        fn.inits = [c for c in d.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        body = [c for c in d.get('inner', []) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
        fn.body = body[0] if body else None
        self.byid[(tu, d['id'])] = ('func', m)
        if m not in self.decls:
            self.decls[m] = fn
            if cls:
                r = self.records.setdefault(cls, Record(cls))
                r.methods.setdefault(fn.name, []).append(m)
        else:
            if d.get('virtual'):
                self.decls[m].virtual = True
            # default arguments may live on the first declaration only
        if fn.body is not None and m not in self.funcs:
            # carry default arguments from the declaration
            dd = self.decls[m]
            fn.virtual = fn.virtual or dd.virtual
            self.funcs[m] = fn

    # ---- lookup
    def find(self, qname, params=None, const=None):
        """function with a body by qualified name (and parameter types, spaces ignored)"""
        c = [f for f in self.funcs.values() if f.qname == qname]
        if params is not None:
            want = [p.replace(' ', '') for p in params]
            c = [f for f in c if [p['type']['qualType'].replace(' ', '') for p in f.params] == want]
        if const is not None:
            c = [f for f in c if f.const == const]
        if len(c) != 1:
            raise ExtractionError('function %s%s: %d candidates' % (qname, params if params is not None else '', len(c)))
        return c[0]

    def all_fields(self, cls):
        r = self.records.get(cls)
        if r is None or not r.complete:
            raise ExtractionError('no definition of class ' + cls)
        out = []
        for b in r.bases:
            out += self.all_fields(b)
        return out + r.fields

    def find_override(self, dyncls, fn):
        """method of dyncls (or base) overriding fn"""
        def look(c):
            r = self.records.get(c)
            if r is None:
                return None
            for m in r.methods.get(fn.name, []):
                d = self.decls[m]
                if [p['type']['qualType'] for p in d.params] == [p['type']['qualType'] for p in fn.params] and d.const == fn.const:
                    return m
            for b in r.bases:
                x = look(b)
                if x:
                    return x
            return None
        return look(dyncls)

    def derives(self, c, base):
        if c == base:
            return True
        r = self.records.get(c)
        return bool(r) and any(self.derives(b, base) for b in r.bases)


def _const(c):
    for x in c.get('inner', []):
        if 'value' in x:
            try:
                return int(x['value'])
            except Exception:
                return None
        v = _const(x)
        if v is not None:
            return v
    return None


def tyname(t):
    return t.get('desugaredQualType') or t['qualType']


def load(names, jobs=8):
    """names: source files relative to SRC (missing ones are an extraction error)"""
    paths = []
    for n in names:
        p = os.path.join(SRC, n)
        if not os.path.exists(p):
            raise ExtractionError('source file %s is gone' % p)
        paths.append(p)
    prog = Program()
    with ProcessPoolExecutor(max_workers=min(jobs, len(paths))) as ex:
        res = list(ex.map(_load_tu_safe, paths))
    for path, decls in res:
        if isinstance(decls, str):
            raise ExtractionError(decls)
        prog.add_tu(path, decls)
    canonical_names(prog)
    return prog


LAYOUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layout.json')


def layout(prog):
    """names and types of the members of each class"""
    out = {}
    for q, r in prog.records.items():
        if not r.complete:
            continue
        ms = []
        for n, l in r.methods.items():
            for m in l:
                d = prog.decls[m]
                if d.kind == 'CXXMethodDecl':
                    ms.append([n, d.node['type']['qualType']])
        out[q] = {'fields': [[f[0], f[1]] for f in r.fields], 'methods': sorted(ms)}
    return out


def canonical_names(prog):
    """members renamed since the contracts were written (same class, same type, no other candidate)
    get the name the contracts know them by"""
    try:
        base = json.load(open(LAYOUT))
    except (OSError, ValueError):
        return
    cur = layout(prog)
    for q, b in base.items():
        c = cur.get(q)
        if c is None:
            continue
        for kind in ('fields', 'methods'):
            old = [x for x in b[kind] if x not in c[kind]]
            new = [x for x in c[kind] if x not in b[kind]]
            for t in {x[1] for x in old}:
                o = [x[0] for x in old if x[1] == t]
                n = [x[0] for x in new if x[1] == t]
                if len(o) != len(n) or set(o) & set(n) or (kind == 'methods' and len(o) != 1):
                    continue
                for was, now in zip(o, n):
                    prog.aliases['%s::%s' % (q, now)] = was
                    if kind == 'fields':
                        r = prog.records[q]
                        r.fields = [((was,) + f[1:] if f[0] == now else f) for f in r.fields]
                        for k, v in prog.byid.items():
                            if v[0] == 'field' and v[1] == q and v[2] == now:
                                prog.byid[k] = ('field', q, was)
                    else:
                        r = prog.records[q]
                        hit = [m for m in r.methods.get(now, []) if prog.decls[m].node['type']['qualType'] == t]
                        r.methods[now] = [m for m in r.methods[now] if m not in hit]
                        r.methods.setdefault(was, []).extend(hit)
                        for m in hit:
                            for tab in (prog.decls, prog.funcs):
                                if m in tab:
                                    f = tab[m]
                                    f.name = was
                                    f.qname = q + '::' + was


def all_sources():
    return sorted(f for f in os.listdir(SRC) if f.endswith('.cpp'))
