"""Symbolic executor over clang's AST of the real functions: strongest-postcondition generation.

Every construct that is not modelled raises Unsupported (never silently skipped).  Trusted parts: the
models of the C++ standard library given here (vector, string, streams as token sequences, math), machine
integers read as mathematical integers except unsigned subtraction (which wraps), double read as real."""
import itertools, os
from fractions import Fraction
import z3
from .values import *
from .astload import tyname, ExtractionError
from .loops import LoopMixin

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SQRT = z3.Function('sqrt', RealS, RealS)
SIN = z3.Function('sin', RealS, RealS)
COS = z3.Function('cos', RealS, RealS)
ACOS = z3.Function('acos', RealS, RealS)
ATAN2 = z3.Function('atan2', RealS, RealS, RealS)
F32 = z3.Function('f32', RealS, RealS)
UF1 = {n: z3.Function(n, RealS, RealS) for n in ('tan', 'exp', 'log', 'log10', 'asin', 'atan', 'floor', 'ceil', 'round')}
POW = z3.Function('pow', RealS, RealS, RealS)

# ranges of leaf constants / functions: name -> (lo, hi)
RANGES = {}
COUNTS, LENGTH = (2 ** 12, 2 ** 7), 2 ** 24
SMALL = 'machine arithmetic does not overflow: discharged for counts up to %d (%d where four counts are multiplied), vectors up to %d long' % (COUNTS + (LENGTH,))


class State:
    __slots__ = ('store', 'pc')

    def __init__(self, store=None, pc=None):
        self.store = store if store is not None else {}
        self.pc = pc if pc is not None else []

    def copy(self):
        return State(dict(self.store), list(self.pc))


class Frame:
    def __init__(self, fn, tu):
        self.fn, self.tu = fn, tu
        self.env = {}
        self.this = None
        self.rets = []
        self.loops = []     # stack of (breaks, continues)
        self.retref = False


class LVIte:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def fld(self, n):
        return LVIte(self.c, self.a.fld(n), self.b.fld(n))

    def idx(self, i):
        return LVIte(self.c, self.a.idx(i), self.b.idx(i))

    def same(self, o):
        return isinstance(o, LVIte) and self.c.eq(o.c) and self.a.same(o.a) and self.b.same(o.b)


class Obligation:
    __slots__ = ('pc', 'goal', 'label', 'kind', 'where', 'case', 'defs', 'data', 'opt')

    def __init__(self, pc, goal, label, kind, where):
        self.pc, self.goal, self.label, self.kind, self.where = pc, goal, label, kind, where
        self.case = None
        self.opt = {}


def is_term(v):
    return isinstance(v, z3.ExprRef)


def realv(t):
    """term -> Real sort"""
    if t.sort() == RealS:
        return t
    if t.sort() == BoolS:
        return ite(t, R(1), R(0))
    n = as_int(t)
    if n is not None:
        return R(n)
    return z3.ToReal(t)


def intv(t):
    if t.sort() == BoolS:
        return ite(t, I(1), I(0))
    return t


def boolv(t):
    if isinstance(t, (Ptr, PIte)):
        return ptr_nonnull(t)
    if t.sort() == BoolS:
        return t
    n = as_num(t)
    if n is not None:
        return z3.BoolVal(n != 0)
    return t != 0


def ptr_nonnull(p):
    if isinstance(p, PIte):
        return ite(p.c, ptr_nonnull(p.a), ptr_nonnull(p.b))
    return z3.BoolVal(p.lv is not None)


_linecache = {}


def line_of(file, off):
    t = _linecache.get(file)
    if t is None:
        try:
            t = open(file, 'rb').read()
        except OSError:
            t = b''
        _linecache[file] = t
    return t.count(b'\n', 0, off) + 1


class Executor(LoopMixin):
    def __init__(self, prog):
        self.prog = prog
        self.st = State()
        self.frames = []
        self.obs = []
        self.roots = itertools.count(1)
        self.handlers = {}      # mangled or qname -> python handler(ex, this, args(nodes evaluated lazily), fn)
        self.copy_contracts = {}        # class -> contract of its copy constructor, value to value
        self.assumptions = set()
        self.functions = set()
        self.used_contracts = set()
        self.stated = set()
        self.invs, self.measures = {}, {}
        self._fit = {}
        self.sizes = {}
        self.depth = 0
        self.steps = 0
        self.f32_exact = False
        self.check_div = True
        self.check_bounds = True
        self.check_assert = True
        self.int_strict = False
        self._prov = {}
        self.opt_ghosts = {}     # id -> (constant, its range)
        self._ment = {}
        self.quiet = 0          # >0: do not record obligations (probing)
        self.max_unroll = 200
        self.deadline = None

    # ------------------------------------------------------------ context protocol
    def havoc(self, ty, name):
        return self.symval(ty, fresh_name(name))

    def mentions(self, t):
        """ghosts (of possibly empty ranges) in a term"""
        m = self._ment
        todo = [t]
        while todo:
            x = todo[-1]
            i = x.get_id()
            if i in m:
                todo.pop()
                continue
            if z3.is_quantifier(x):
                ch = [x.body()]
            else:
                ch = x.children()
            miss = [y for y in ch if y.get_id() not in m]
            if miss:
                todo += miss
                continue
            s = frozenset([i]) if i in self.opt_ghosts else frozenset()
            for y in ch:
                s |= m[y.get_id()][0]
            m[i] = (s, x)
            todo.pop()
        return m[t.get_id()][0]

    def hyps(self, goal):
        """path facts a goal may use: what is known of a ghost holds in its range only"""
        pcs = [t for _, t in self.st.pc]
        if not self.opt_ghosts:
            return pcs
        g = self.mentions(goal)
        out = []
        for i in g:
            out += self.opt_ghosts[i][1]
        for i in g:     # the range of a ghost may depend on another
            for f in self.opt_ghosts[i][1]:
                for k in self.mentions(f) - g:
                    out += self.opt_ghosts[k][1]
                    g = g | {k}
        todo = list(reversed(pcs))
        while todo:
            t = todo.pop()
            if self.mentions(t) <= g:
                out.append(t)
            elif z3.is_and(t):
                todo += reversed(t.children())
        return out

    def provable(self, c):
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        pcs = self.hyps(c)
        for t in pcs:
            if t.eq(c):
                return True
        key = (s.get_id(), tuple(t.get_id() for t in pcs))
        r = self._prov.get(key)
        if r is not None:
            return r[0]
        sv = z3.Solver()
        sv.set('timeout', 400)
        sv.set('rlimit', 400000)
        intonly = not _has_real(s)
        for t in pcs:
            if z3.is_quantifier(t):
                continue
            if intonly and _has_real(t):
                continue
            sv.add(t)
        for t in range_facts([s] + [t for t in pcs if not z3.is_quantifier(t)]):
            sv.add(t)
        sv.add(z3.Not(s))
        r = sv.check() == z3.unsat
        self._prov[key] = (r, s, pcs)
        return r

    def decide(self, c):
        """concrete truth value if entailed, else None"""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.provable(c):
            return True
        if self.provable(z3.Not(c)):
            return False
        return None

    # ------------------------------------------------------------ symbolic values
    def symval(self, ty, name, idx=()):
        if isinstance(ty, str):
            ty = parse_type(ty)
        k = ty.k
        if k in ('int', 'real', 'bool'):
            s = {'int': IntS, 'real': RealS, 'bool': BoolS}[k]
            if k == 'int':
                if not ty.signed:
                    RANGES[name] = (0, 2 ** ty.bits - 1 if ty.bits <= 8 else None)
                elif ty.bits == 8:
                    RANGES[name] = (-128, 127)
            if idx:
                return z3.Function(name, *([IntS] * len(idx) + [s]))(*idx)
            return z3.Const(name, s)
        if k == 'rec':
            return Struct(ty.a, {fn: self.symval(parse_type(ft), name + '.' + fn, idx) for fn, ft, _, _ in self.prog.all_fields(ty.a)})
        if k == 'vec':
            n = self.symval(parse_type('unsigned long'), name + '.len', idx)
            return Base(ty.a, n, lambda i, e=ty.a, nm=name, ix=idx: self.symval(e, nm, ix + (i,)), tag=name)
        if k == 'arr':
            return Lit(ty.a, [self.symval(ty.a, '%s' % name, idx + (I(i),)) for i in range(ty.n)])
        if k == 'str':
            return Str((('sym', name, idx),))
        if k == 'ref':
            return self.symval(ty.a, name, idx)
        if k in ('ptr', 'iter', 'stream', 'fn', 'other', 'void'):
            return Opaque('%s of type %s' % (name, ty))
        raise Unsupported('symbolic value of ' + repr(ty))

    def default_value(self, ty, uninit_name='uninit'):
        k = ty.k
        if k in ('int', 'real', 'bool'):
            return self.symval(ty, fresh_name(uninit_name))
        if k == 'vec':
            return Lit(ty.a, ())
        if k == 'str':
            return Str(())
        if k == 'arr':
            return Lit(ty.a, [self.default_value(ty.a) for _ in range(ty.n)])
        if k == 'ptr':
            return Opaque('uninitialised pointer')
        if k == 'rec':
            return self.construct(ty, 'void ()', [])
        if k == 'stream':
            return Struct('stream', {'kind': ty.a, 'tok': Lit(parse_type('Tok'), ()), 'open': z3.BoolVal(False), 'pos': I(0)})
        if k in ('iter', 'other', 'fn'):
            return Opaque(repr(ty))
        raise Unsupported('default value of ' + repr(ty))

    def zero_value(self, ty):
        k = ty.k
        if k == 'int':
            return I(0)
        if k == 'real':
            return R(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'ptr':
            return Ptr(None)
        if k == 'arr':
            return Lit(ty.a, [self.zero_value(ty.a) for _ in range(ty.n)])
        return self.default_value(ty)

    # ------------------------------------------------------------ store
    def new_root(self, val, hint=''):
        r = '%s#%d' % (hint, next(self.roots))
        self.st.store[r] = val
        return LV(r)

    def rd(self, lv):
        if isinstance(lv, LVIte):
            return self.merge_val(lv.c, self.rd(lv.a), self.rd(lv.b))
        if lv.root not in self.st.store:
            raise Unsupported('dangling reference %s' % lv)
        v = self.st.store[lv.root]
        for k, x in lv.path:
            v = self._sub(v, k, x)
        return v

    def _sub(self, v, k, x):
        if k == 'f':
            if not isinstance(v, Struct):
                raise Unsupported('field %s of %r' % (x, type(v)))
            return v.f[x]
        if not isinstance(v, Vec):
            raise Unsupported('index into %r' % type(v))
        return v.get(x, self)

    def wr(self, lv, val):
        if isinstance(lv, LVIte):
            self.wr(lv.a, self.merge_val(lv.c, val, self.rd(lv.a)))
            self.wr(lv.b, self.merge_val(lv.c, self.rd(lv.b), val))
            return
        if lv.root not in self.st.store and lv.path:
            raise Unsupported('dangling reference %s' % lv)
        self.st.store[lv.root] = self._upd(self.st.store.get(lv.root), lv.path, val)

    def _upd(self, v, path, val):
        if not path:
            return val
        (k, x), rest = path[0], path[1:]
        if k == 'f':
            if not isinstance(v, Struct):
                raise Unsupported('field write on %r' % type(v))
            return v.with_(x, self._upd(v.f[x], rest, val))
        if not isinstance(v, Vec):
            raise Unsupported('element write on %r' % type(v))
        el = self._upd(v.get(x, self), rest, val) if rest else val
        return self.store_elem(v, x, el)

    def store_elem(self, v, x, el):
        c = as_int(x)
        if isinstance(v, Lit) and c is not None and 0 <= c < len(v.items):
            it = list(v.items)
            it[c] = el
            return Lit(v.ety, it)
        if isinstance(v, Push):
            d = as_int(isub(x, v.prev.len()))
            if d is not None and 0 <= d < len(v.items):
                it = list(v.items)
                it[d] = el
                return Push(v.ety, v.prev, it)
        if isinstance(v, Store):
            d = as_int(isub(x, v.i))
            if d == 0:
                return Store(v.ety, v.prev, x, el)
        return Store(v.ety, v, x, el)

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if is_term(a) and is_term(b):
            if a.sort() != b.sort():
                if RealS in (a.sort(), b.sort()):
                    a, b = realv(a), realv(b)
                else:
                    a, b = intv(a), intv(b)
            return ite(c, a, b)
        if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls and set(a.f) == set(b.f):
            return Struct(a.cls, {k: self.merge_val(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Vec) and isinstance(b, Vec):
            if isinstance(a, Lit) and isinstance(b, Lit) and len(a.items) == len(b.items):
                return Lit(a.ety, [self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, Push) and isinstance(b, Push) and a.prev is b.prev and len(a.items) == len(b.items):
                return Push(a.ety, a.prev, [self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, Store) and isinstance(b, Store) and a.prev is b.prev and a.i.eq(b.i):
                return Store(a.ety, a.prev, a.i, self.merge_val(c, a.val, b.val))
            if isinstance(a, Store) and a.prev is b:
                return Store(a.ety, b, a.i, self.merge_val(c, a.val, b.get(a.i, self)))
            if isinstance(b, Store) and b.prev is a:
                return Store(b.ety, a, b.i, self.merge_val(c, a.get(b.i, self), b.val))
            return VIte(a.ety, c, a, b)
        if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.same(b):
                return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv is not None and b.lv is not None and a.lv.same(b.lv) and a.off is not None and b.off is not None:
                return Ptr(a.lv, ite(c, a.off, b.off))
            return PIte(c, a, b)
        if isinstance(a, Iter) and isinstance(b, Iter) and a.lv.same(b.lv):
            return Iter(a.lv, ite(c, a.i, b.i))
        if isinstance(a, Str) and isinstance(b, Str):
            if a.p == b.p:
                return a
            return Str((('ite', c, a, b),))
        if isinstance(a, (LV, LVIte)) and isinstance(b, (LV, LVIte)):
            return a if a.same(b) else LVIte(c, a, b)
        if isinstance(a, str) and a == b:
            return a
        if a is None and b is None:
            return None
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('merged')
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))

    def _suffix_cond(self, pc, n):
        return conj([t for k, t in pc[n:] if k == 'cond'])

    def merge_states(self, l, vals=None):
        """merge mutually exclusive states [(state, value)] -> (state, value)"""
        l = [x for x in l if x is not None and x[0] is not None]
        if not l:
            return None
        l = list(l)
        while len(l) > 1:
            # adjacent pair with the longest common prefix
            best, bi = -1, 0
            for i in range(len(l) - 1):
                p = _common(l[i][0].pc, l[i + 1][0].pc)
                if p > best:
                    best, bi = p, i
            a, b = l[bi], l[bi + 1]
            l[bi:bi + 2] = [self._merge2(a, b, best)]
        return l[0]

    def _merge2(self, a, b, n):
        (sa, va), (sb, vb) = a, b
        ca, cb = self._suffix_cond(sa.pc, n), self._suffix_cond(sb.pc, n)
        pc = list(sa.pc[:n])
        st = State({}, pc)
        old = self.st
        self.st = st
        cond = ca
        if z3.is_true(ca) and not z3.is_true(cb):
            cond = z3.Not(cb)
        try:
            for r, x in sa.store.items():
                if r in sb.store:
                    y = sb.store[r]
                    st.store[r] = x if x is y else self.merge_val(cond, x, y)
                else:
                    st.store[r] = x
            for r, y in sb.store.items():
                if r not in sa.store:
                    st.store[r] = y
            v = va if va is vb else self.merge_val(cond, va, vb)
        finally:
            self.st = old
        d = z3.simplify(z3.Or(ca, cb))
        if not z3.is_true(d) and not _complement(ca, cb):
            pc.append(('cond', d))
        for k, t in sa.pc[n:]:
            if k == 'fact':
                pc.append(('fact', z3.Implies(ca, t) if not z3.is_true(ca) else t))
        for k, t in sb.pc[n:]:
            if k == 'fact':
                pc.append(('fact', z3.Implies(cb, t) if not z3.is_true(cb) else t))
        return st, v

    # ------------------------------------------------------------ obligations
    def where(self, node):
        fr = self.frames[-1] if self.frames else None
        fn = fr.fn if fr else None
        if fn is None:
            return 'contract'
        b = (node or {}).get('range', {}).get('begin', {})
        if 'expansionLoc' in b:
            b = b['expansionLoc']
        off = b.get('offset')
        s = fn.sig()
        if off is not None and fn.file:
            s = '%s:%d in %s' % (os.path.basename(fn.file), line_of(fn.file, off), s)
        return s

    def oblige(self, goal, label, kind, node=None, assume=True):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if not self.quiet and not z3.is_true(goal):
            self.obs.append(Obligation(self.hyps(goal), goal, label, kind, self.where(node)))
        elif not self.quiet:
            self.obs.append(Obligation([], goal, label, kind, self.where(node)))
        if assume and not z3.is_true(goal):
            self.st.pc.append(('fact', goal))

    def assume(self, t, kind='fact'):
        if not z3.is_true(t):
            self.st.pc.append((kind, t))

    # ------------------------------------------------------------ statements
    def exec_block(self, nodes):
        for n in nodes:
            if self.st is None:
                return
            self.stmt(n)

    def stmt(self, n):
        if not n or self.st is None:
            return
        self.steps += 1
        if self.deadline is not None and self.steps % 50 == 0:
            import time
            if time.time() > self.deadline:
                raise Unsupported('symbolic execution time limit')
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        self.ev_any(n)

    def s_CompoundStmt(self, n):
        self.exec_block(n.get('inner', []))

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            if d['kind'] == 'VarDecl':
                self.var_decl(d)
            elif d['kind'] in ('UsingDecl', 'UsingDirectiveDecl', 'TypedefDecl', 'StaticAssertDecl', 'TypeAliasDecl', 'EmptyDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d['kind'])

    def var_decl(self, d):
        fr = self.frames[-1]
        ty = parse_type(tyname(d['type']))
        if d.get('storageClass') == 'static' and 'const' not in d['type']['qualType'] and 'constexpr' not in d:
            raise Unsupported('static local ' + d['name'])
        init = d['inner'][-1] if d.get('inner') and d.get('init') else None
        key = (fr.tu, d['id'])
        if ty.k == 'ref':
            fr.env[key] = self.lv_or_temp(init)
            return
        if init is None:
            v = self.default_value(ty, d['name'])
        else:
            v = self.conv_to(self.ev(init), ty)
        fr.env[key] = self.new_root(v, d['name'])

    def conv_to(self, v, ty):
        if is_term(v):
            if ty.k == 'real' and v.sort() != RealS:
                return realv(v)
            if ty.k == 'bool' and v.sort() != BoolS:
                return boolv(v)
            if ty.k == 'int' and v.sort() == BoolS:
                return intv(v)
        return v

    def s_ReturnStmt(self, n):
        fr = self.frames[-1]
        inner = n.get('inner', [])
        v = None
        if inner:
            if fr.retref:
                v = self.lv_or_temp(inner[0])
            else:
                v = self.ev_any(inner[0])
        fr.rets.append((self.st, v))
        self.st = None

    def s_BreakStmt(self, n):
        self.frames[-1].loops[-1][0].append((self.st, None))
        self.st = None

    def s_ContinueStmt(self, n):
        self.frames[-1].loops[-1][1].append((self.st, None))
        self.st = None

    def s_IfStmt(self, n):
        inner = [c for c in n.get('inner', [])]
        if n.get('hasInit'):
            self.stmt(inner.pop(0))
        if n.get('hasVar'):
            self.stmt(inner.pop(0))
        c = boolv(self.ev(inner[0]))
        then = inner[1]
        els = inner[2] if len(inner) > 2 else None
        self.branch(c, lambda: self.stmt(then), (lambda: self.stmt(els)) if els else None)

    def branch(self, c, f, g):
        c = z3.simplify(c) if not (z3.is_true(c) or z3.is_false(c)) else c
        d = self.decide(c)
        if d is True:
            f()
            return
        if d is False:
            if g:
                g()
            return
        base = self.st
        self.st = base.copy()
        self.st.pc.append(('cond', c))
        f()
        s1 = self.st
        self.st = base.copy()
        self.st.pc.append(('cond', z3.Not(c)))
        if g:
            g()
        s2 = self.st
        m = self.merge_states([(s1, None), (s2, None)])
        self.st = m[0] if m else None

    def s_SwitchStmt(self, n):
        raise Unsupported('switch')

    # ------------------------------------------------------------ expression entry points
    def ev_any(self, n):
        """evaluate for effect; value or LV"""
        if n.get('valueCategory') in ('lvalue', 'xvalue'):
            lv = self.lv(n)
            if lv is None:
                return None
            return self.rd(lv) if isinstance(lv, (LV, LVIte)) and self._readable(lv) else None
        return self.ev(n)

    def _readable(self, lv):
        try:
            self.rd(lv)
            return True
        except Unsupported:
            return False

    def lv_or_temp(self, n):
        if n.get('valueCategory') in ('lvalue', 'xvalue') or n['kind'] == 'MaterializeTemporaryExpr':
            return self.lv(n)
        return self.new_root(self.ev(n), 'tmp')

    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            if n.get('valueCategory') in ('lvalue', 'xvalue'):
                return self.rd(self.lv(n))
            raise Unsupported('expression ' + k)
        return m(n)

    def lv(self, n):
        k = n['kind']
        m = getattr(self, 'l_' + k, None)
        if m is None:
            if n.get('valueCategory') == 'prvalue':
                return self.new_root(self.ev(n), 'tmp')
            raise Unsupported('lvalue ' + k)
        return m(n)

    # ---- literals
    def e_IntegerLiteral(self, n):
        return I(int(n['value']))

    def e_FloatingLiteral(self, n):
        return R(Fraction(float(n['value'])).limit_denominator(10 ** 15) if _decimal_ok(n['value']) else Fraction(float(n['value'])))

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n['value']))

    def e_CharacterLiteral(self, n):
        return I(int(n['value']))

    def e_StringLiteral(self, n):
        return Str((_unquote(n['value']),))

    def l_StringLiteral(self, n):
        return self.new_root(self.e_StringLiteral(n), 'lit')

    def e_CXXNullPtrLiteralExpr(self, n):
        return Ptr(None)

    def e_GNUNullExpr(self, n):
        return Ptr(None)

    def e_CXXThisExpr(self, n):
        return Ptr(self.frames[-1].this)

    def e_PredefinedExpr(self, n):
        return Str(('func',))

    def l_PredefinedExpr(self, n):
        return self.new_root(Str(('func',)), 'lit')

    def e_SourceLocExpr(self, n):
        return Opaque('loc')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        at = n.get('argType') or (n['inner'][0]['type'] if n.get('inner') else None)
        ty = parse_type(tyname(at))
        sz = _sizeof(ty)
        if sz is None:
            raise Unsupported('sizeof ' + repr(ty))
        return I(sz)

    # ---- wrappers
    def _first(self, n):
        return n['inner'][0]

    def e_ParenExpr(self, n):
        return self.ev(self._first(n))

    def l_ParenExpr(self, n):
        return self.lv(self._first(n))

    def e_ExprWithCleanups(self, n):
        return self.ev_any(self._first(n)) if n.get('valueCategory') != 'prvalue' else self.ev(self._first(n))

    def l_ExprWithCleanups(self, n):
        return self.lv(self._first(n))

    e_ConstantExpr = e_ParenExpr
    e_CXXBindTemporaryExpr = e_ParenExpr
    e_CXXDefaultInitExpr = None
    e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def l_CXXBindTemporaryExpr(self, n):
        return self.new_root(self.ev(self._first(n)), 'tmp')

    def e_MaterializeTemporaryExpr(self, n):
        return self.ev(self._first(n))

    def l_MaterializeTemporaryExpr(self, n):
        c = self._first(n)
        if c.get('valueCategory') == 'lvalue':
            return self.lv(c)
        return self.new_root(self.ev(c), 'tmp')

    # ---- declarations
    def l_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        fr = self.frames[-1]
        key = (fr.tu, rd['id'])
        lv = fr.env.get(key)
        if lv is not None:
            return lv
        g = self.prog.byid.get(key)
        if g is not None and g[0] == 'global':
            return self.global_lv(g[1], fr.tu, g[2])
        if rd.get('kind') in ('VarDecl',):
            return ('std', rd['name'])
        raise Unsupported('unbound variable %s' % rd.get('name'))

    def global_lv(self, name, tu, node):
        root = 'global:' + name
        if root not in self.st.store:
            qt = node['type']['qualType']
            if 'const' not in qt and 'constexpr' not in node:
                self.st.store[root] = self.symval(parse_type(tyname(node['type'])), root)
                self.assumptions.add('mutable global %s read as an arbitrary value' % name)
            else:
                d = self.prog.globals.get(name, (tu, node))
                fr = Frame(None, d[0])
                self.frames.append(fr)
                try:
                    init = d[1]['inner'][-1]
                    self.st.store[root] = self.conv_to(self.ev(init), parse_type(tyname(d[1]['type'])))
                finally:
                    self.frames.pop()
        return LV(root)

    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            b = self.prog.byid.get((self.frames[-1].tu, rd['id']))
            if b and b[0] == 'enum':
                return I(b[1])
            return Opaque('enum ' + rd['name'])
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            b = self.prog.byid.get((self.frames[-1].tu, rd['id']))
            return FnRef(rd['name'], b[1] if b else None)
        return self.rd(self.l_DeclRefExpr(n))

    # ---- members
    def l_MemberExpr(self, n):
        base = self._first(n)
        tu = self.frames[-1].tu
        b = self.prog.byid.get((tu, n['referencedMemberDecl']))
        if b is None or b[0] != 'field':
            if b is not None and b[0] == 'global':
                return self.global_lv(b[1], tu, b[2])
            raise Unsupported('member %s' % n.get('name'))
        if n.get('isArrow'):
            lv = self.deref(self.ev(base), n)
        else:
            lv = self.lv(base) if base.get('valueCategory') != 'prvalue' else self.new_root(self.ev(base), 'tmp')
        return lv.fld(b[2])

    def e_MemberExpr(self, n):
        return self.rd(self.l_MemberExpr(n))

    def deref(self, p, node=None):
        if isinstance(p, PIte):
            d = self.decide(p.c)
            if d is True:
                return self.deref(p.a, node)
            if d is False:
                return self.deref(p.b, node)
            if isinstance(p.a, Ptr) and p.a.lv is None:
                self.oblige(z3.Not(p.c), 'dereferenced pointer is not null', 'null', node)
                return self.deref(p.b, node)
            if isinstance(p.b, Ptr) and p.b.lv is None:
                self.oblige(p.c, 'dereferenced pointer is not null', 'null', node)
                return self.deref(p.a, node)
            return LVIte(p.c, self.deref(p.a, node), self.deref(p.b, node))
        if isinstance(p, Iter):
            return p.lv.idx(p.i)
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %s' % (p.why if isinstance(p, Opaque) else type(p).__name__))
        if p.lv is None:
            self.oblige(z3.BoolVal(False), 'null pointer is not dereferenced', 'null', node)
            raise Unsupported('null dereference')
        if p.off is not None:
            if node is not None and self.check_bounds:
                n = self.rd(p.lv).len()
                self.oblige(z3.And(p.off >= 0, p.off < n), 'pointer inside its array', 'bounds', node)
            return p.lv.idx(p.off)
        return p.lv

    # ---- casts
    def e_ImplicitCastExpr(self, n):
        ck = n['castKind']
        c = self._first(n)
        if ck == 'LValueToRValue':
            lv = self.lv(c)
            if isinstance(lv, tuple):
                return lv
            return self.rd(lv)
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived'):
            return self.ev(c)
        if ck == 'IntegralCast':
            return self.int_cast(self.ev(c), parse_type(tyname(c['type'])), parse_type(tyname(n['type'])), n)
        if ck == 'IntegralToFloating':
            v = realv(self.ev(c))
            return self.to_f32(v, n, c)
        if ck == 'FloatingToIntegral':
            return self.f2i(self.ev(c), parse_type(tyname(n['type'])), n)
        if ck == 'FloatingCast':
            v = self.ev(c)
            if parse_type(tyname(n['type'])).a == 'float' and parse_type(tyname(c['type'])).a != 'float':
                if self.f32_exact or as_num(v) is not None and Fraction(_f32(float(as_num(v)))) == as_num(v):
                    return v
                return F32(v)
            return v
        if ck == 'IntegralToBoolean' or ck == 'FloatingToBoolean' or ck == 'PointerToBoolean':
            return boolv(self.ev(c))
        if ck == 'ArrayToPointerDecay':
            if c['kind'] in ('StringLiteral', 'PredefinedExpr'):
                return self.ev(c)
            lv = self.lv(c)
            return Ptr(lv, I(0))
        if ck == 'NullToPointer':
            return Ptr(None)
        if ck == 'BitCast':
            return self.ev(c)
        if ck == 'ToVoid':
            self.ev_any(c)
            return None
        if ck == 'FunctionToPointerDecay':
            return self.ev(c)
        raise Unsupported('cast ' + ck)

    def to_f32(self, v, n, c):
        if parse_type(tyname(n['type'])).a == 'float' and not self.f32_exact and as_num(v) is None:
            return F32(v)
        return v

    def l_ImplicitCastExpr(self, n):
        ck = n['castKind']
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            return self.lv(self._first(n))
        if n.get('valueCategory') == 'prvalue':
            return self.new_root(self.ev(n), 'tmp')
        raise Unsupported('lvalue cast ' + ck)

    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr
    l_CXXStaticCastExpr = l_ImplicitCastExpr
    l_CStyleCastExpr = l_ImplicitCastExpr
    l_CXXFunctionalCastExpr = l_ImplicitCastExpr

    def e_CXXReinterpretCastExpr(self, n):
        return self.ev(self._first(n))

    def int_cast(self, v, a, b, node=None):
        if not is_term(v):
            return v
        if v.sort() == BoolS:
            return intv(v)
        if b.k != 'int':
            if b.k == 'bool':
                return boolv(v)
            return v
        if a.k == 'bool':
            return intv(v)
        c = as_int(v)
        M = 2 ** b.bits
        if c is not None:
            c %= M
            if b.signed and c >= M // 2:
                c -= M
            return I(c)
        if not b.signed:
            if b.bits <= 16:
                if a.k == 'int' and not a.signed and a.bits <= b.bits:
                    return v
                if self.provable(z3.And(v >= 0, v < M)):
                    return v
                return simp(v % M)
            if a.k == 'int' and not a.signed and a.bits <= b.bits:
                return v
            if self.provable(v >= 0):
                return v
            return z3.If(v >= 0, v, v + M)
        if b.bits <= 16 and not (a.bits <= b.bits and a.signed):
            if self.provable(z3.And(v >= -M // 2, v < M // 2)):
                return v
            return simp((v + M // 2) % M - M // 2)
        if (a.bits > b.bits) or (not a.signed and a.bits == b.bits):
            # a wrapped unsigned value comes back as the negative number it stood for
            u = _unwrap(v, a)
            if u is not None:
                return u
            self.in_range(v, -M // 2, M // 2, 'integer conversion to a signed type', node)
        return v

    def small(self, terms, most):
        """size limits under which machine arithmetic is examined"""
        out = []
        for t in subterms([t for t in terms if not z3.is_quantifier(t)]):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == IntS:
                n = t.decl().name()
                if n in self.sizes:
                    out.append(t <= (most if self.sizes[n] else most * 256))
                    if not self.sizes[n]:
                        out.append(t >= -most * 256)
                elif n.endswith('.len'):
                    out.append(t <= LENGTH)
        return out

    def in_range(self, v, lo, hi, what, node):
        """a conversion to a type that holds lo .. hi-1 keeps the value: an obligation where the contract bounds the
        value, else an assumption named in the evidence"""
        if self.quiet:
            return
        g = z3.And(v > lo - 1, v < hi)
        from .interval import inside
        hyps = self.hyps(g)
        small = []
        ok = inside(hyps, g) or self.provable(g)
        if not ok:
            for most in COUNTS:
                small = self.small(hyps + [g], most)
                ok = bool(small) and inside(hyps + small, g)
                if ok:
                    self.assumptions.add(SMALL)
                    break
        if ok:
            self.obs.append(Obligation(hyps + small, g, what + ' is in range', 'range', self.where(node)))
        else:
            if os.environ.get('VCG_RANGE'):
                print('RANGE', self.where(node), str(v)[:300].replace('\n', ' '), flush=True)
            self.assumptions.add('%s is in range: %s' % (what, self.where(node)))

    def f2i(self, v, ty, node):
        n = as_num(v)
        if n is not None:
            q = abs(n.numerator) // n.denominator
            return I(q if n >= 0 else -q)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0)
        if ty.k == 'int':
            M = 2 ** ty.bits
            self.in_range(v, *((-(M // 2), M // 2) if ty.signed else (0, M)), 'floating to integer conversion', node)
        if self.provable(v >= 0):
            return z3.ToInt(v)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    # ---- unary
    def e_UnaryOperator(self, n):
        op = n['opcode']
        c = self._first(n)
        if op in ('++', '--'):
            lv = self.lv(c)
            old = self.rd(lv)
            new = self.bump(old, 1 if op == '++' else -1)
            ty = parse_type(tyname(c['type']))
            if ty.k == 'int' and ty.signed:
                self.fits(new, ty, n)
            self.wr(lv, new)
            return old if n.get('isPostfix') else new
        if op == '&':
            lv = self.lv(c)
            if isinstance(lv, LV) and lv.path and lv.path[-1][0] == 'i':
                return Ptr(LV(lv.root, lv.path[:-1]), lv.path[-1][1])
            return Ptr(lv)
        if op == '*':
            return self.rd(self.deref(self.ev(c), n))
        v = self.ev(c)
        if op == '-':
            if isinstance(v, Opaque):
                raise Unsupported('arithmetic on opaque value')
            num = as_num(v)
            if num is not None:
                return I(-int(num)) if v.sort() == IntS else R(-num)
            return -v
        if op == '+':
            return v
        if op == '!':
            b = boolv(v)
            if z3.is_not(b):
                return b.arg(0)
            return z3.simplify(z3.Not(b)) if z3.is_true(b) or z3.is_false(b) else z3.Not(b)
        if op == '~':
            x = as_int(v)
            ty = parse_type(tyname(n['type']))
            if x is not None:
                return I(~x if ty.signed else (2 ** ty.bits - 1 - x))
        raise Unsupported('unary ' + op)

    def bump(self, v, d):
        if isinstance(v, Iter):
            return Iter(v.lv, iadd(v.i, I(d)))
        if isinstance(v, Ptr):
            return Ptr(v.lv, iadd(v.off if v.off is not None else I(0), I(d)))
        if is_term(v):
            if v.sort() == RealS:
                return simp(v + d)
            return iadd(v, I(d))
        raise Unsupported('increment of %s' % type(v).__name__)

    def l_UnaryOperator(self, n):
        op = n['opcode']
        c = self._first(n)
        if op == '*':
            return self.deref(self.ev(c), n)
        if op in ('++', '--'):
            lv = self.lv(c)
            self.wr(lv, self.bump(self.rd(lv), 1 if op == '++' else -1))
            return lv
        raise Unsupported('lvalue unary ' + op)

    # ---- binary
    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op in ('&&', '||'):
            x = boolv(self.ev(a))
            d = self.decide(x)
            if op == '&&':
                if d is False:
                    return z3.BoolVal(False)
                if d is True:
                    return boolv(self.ev(b))
                y = self.ev_under(x, b)
                return z3.BoolVal(False) if z3.is_false(y) else (x if z3.is_true(y) else z3.And(x, y))
            if d is True:
                return z3.BoolVal(True)
            if d is False:
                return boolv(self.ev(b))
            y = self.ev_under(z3.Not(x), b)
            return z3.BoolVal(True) if z3.is_true(y) else (x if z3.is_false(y) else z3.Or(x, y))
        if op == '=':
            lv = self.l_BinaryOperator(n)
            return self.rd(lv)
        if op == ',':
            self.ev_any(a)
            return self.ev(b)
        return self.binop(op, self.ev(a), self.ev(b), parse_type(tyname(n['type'])), n, parse_type(tyname(a['type'])))

    def ev_under(self, c, node):
        """value of a right operand evaluated only under condition c (effects merged)"""
        base = self.st
        self.st = base.copy()
        self.st.pc.append(('cond', c))
        v = boolv(self.ev(node))
        s1 = self.st
        if not _changed(base, s1):
            new = s1.pc[len(base.pc) + 1:]
            for k, t in new:
                if k == 'fact':
                    base.pc.append(('fact', z3.Implies(c, t)))
            for r in s1.store:
                if r not in base.store:
                    base.store[r] = s1.store[r]
            self.st = base
            return v
        s2 = base.copy()
        s2.pc.append(('cond', z3.Not(c)))
        m = self.merge_states([(s1, None), (s2, None)])
        self.st = m[0]
        return v

    def l_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            v = self.ev(b)
            lv = self.lv(a)
            self.wr(lv, self.conv_to(v, parse_type(tyname(a['type']))))
            return lv
        if op == ',':
            self.ev_any(a)
            return self.lv(b)
        raise Unsupported('lvalue binary ' + op)

    def binop(self, op, x, y, ty, node, oty=None):
        r = self.binop_(op, x, y, ty, node, oty)
        if op in ('+', '-', '*') and ty.k == 'int' and ty.signed and node is not None:
            self.fits(r, ty, node)
        return r

    def fits(self, r, ty, node):
        """a signed result stays in its type"""
        if self.quiet or not isinstance(r, z3.ArithRef) or not r.is_int() or as_int(r) is not None:
            return
        M = 2 ** (ty.bits - 1)
        key = (r.get_id(), self.where(node))
        if key in self._fit:
            return
        self._fit[key] = r
        self.in_range(r, -M, M, 'result of %d bit signed arithmetic' % ty.bits, node)

    def binop_(self, op, x, y, ty, node, oty=None):
        if isinstance(x, (Ptr, PIte, Iter)) or isinstance(y, (Ptr, PIte, Iter)):
            return self.ptrop(op, x, y, node)
        if isinstance(x, Str) or isinstance(y, Str):
            raise Unsupported('string operator ' + op)
        if not is_term(x) or not is_term(y):
            raise Unsupported('operator %s on %s, %s' % (op, _tn(x), _tn(y)))
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if x.sort() != y.sort():
                if RealS in (x.sort(), y.sort()):
                    x, y = realv(x), realv(y)
                else:
                    x, y = intv(x), intv(y)
            elif x.sort() == BoolS and op not in ('==', '!='):
                x, y = intv(x), intv(y)
            u, v = as_num(x), as_num(y)
            if u is not None and v is not None:
                return z3.BoolVal({'==': u == v, '!=': u != v, '<': u < v, '>': u > v, '<=': u <= v, '>=': u >= v}[op])
            if x.eq(y):
                return z3.BoolVal(op in ('==', '<=', '>='))
            return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
        if ty.k == 'real' or x.sort() == RealS or y.sort() == RealS:
            x, y = realv(x), realv(y)
            u, v = as_num(x), as_num(y)
            if op == '+':
                if u == 0:
                    return y
                if v == 0:
                    return x
                return R(u + v) if u is not None and v is not None else x + y
            if op == '-':
                if v == 0:
                    return x
                return R(u - v) if u is not None and v is not None else x - y
            if op == '*':
                if u == 1:
                    return y
                if v == 1:
                    return x
                if u == 0 or v == 0:
                    return R(0)
                return R(u * v) if u is not None and v is not None else x * y
            if op == '/':
                if v == 1:
                    return x
                if v is not None and v != 0 and u is not None:
                    return R(u / v)
                if v is None and self.check_div:
                    self.oblige(y != 0, 'divisor is not zero', 'div', node)
                elif v == 0:
                    self.oblige(z3.BoolVal(False), 'divisor is not zero', 'div', node)
                return x / y
            raise Unsupported('real operator ' + op)
        x, y = intv(x), intv(y)
        u, v = as_int(x), as_int(y)
        if op == '+':
            return iadd(x, y)
        if op == '-':
            r = isub(x, y)
            if ty.k == 'int' and not ty.signed and as_int(r) is None and not self.provable(r >= 0):
                return z3.If(r >= 0, r, r + 2 ** ty.bits)
            if ty.k == 'int' and not ty.signed and as_int(r) is not None:
                return I(as_int(r) % 2 ** ty.bits)
            return r
        if op == '*':
            return imul(x, y)
        if op in ('/', '%'):
            if v == 0:
                self.oblige(z3.BoolVal(False), 'divisor is not zero', 'div', node)
            if u is not None and v:
                q = abs(u) // abs(v)
                if (u < 0) != (v < 0):
                    q = -q
                return I(q if op == '/' else u - q * v)
            if v is None:
                self.oblige(y != 0, 'divisor is not zero', 'div', node)
            if (not ty.signed) or self.provable(x >= 0):
                if v is not None and v > 0 or self.provable(y > 0):
                    return self.idiv(x, y) if op == '/' else self.imod(x, y)
            q = z3.If(x >= 0, x / y, -((-x) / y))
            return q if op == '/' else x - y * q
        if op == '<<':
            if v is not None:
                if u is not None:
                    return I(u << v)
                return imul(x, I(2 ** v))
            raise Unsupported('variable shift')
        if op == '>>':
            if v is not None:
                if u is not None:
                    return I(u >> v)
                return self.shr(x, v)
            raise Unsupported('variable shift')
        if op == '&':
            return self.bitand(x, y)
        if op == '|':
            return self.bitor(x, y)
        if op == '^':
            if u is not None and v is not None:
                return I(u ^ v)
            return z3.Function('bxor', IntS, IntS, IntS)(x, y)
        raise Unsupported('integer operator ' + op)

    def idiv(self, x, y):
        return x / y

    def imod(self, x, y):
        return x % y

    def shr(self, x, v):
        # split sums of byte fields
        parts = _bitparts(x)
        if parts is not None:
            out = [(t, s - v, w) for t, s, w in parts if s + w > v]
            if all(s >= 0 for _, s, _ in out):
                return _join(out)
        return x / (2 ** v)

    def bitand(self, x, y):
        u, v = as_int(x), as_int(y)
        if u is not None and v is not None:
            return I(u & v)
        if u is not None:
            x, v = y, u
        if v is not None and v >= 0:
            if v == 0:
                return I(0)
            s = (v & -v).bit_length() - 1
            m = v >> s
            if m & (m + 1) == 0:
                w = m.bit_length()
                parts = _bitparts(x)
                if parts is not None:
                    keep = []
                    ok = True
                    for t, ps, pw in parts:
                        if ps >= s and ps + pw <= s + w:
                            keep.append((t, ps, pw))
                        elif ps + pw <= s or ps >= s + w:
                            pass
                        else:
                            ok = False
                    if ok:
                        return _join(keep)
                r = x / (2 ** s) if s else x
                r = r % (2 ** w)
                return r * (2 ** s) if s else r
        return z3.Function('band', IntS, IntS, IntS)(x, y)

    def bitor(self, x, y):
        u, v = as_int(x), as_int(y)
        if u is not None and v is not None:
            return I(u | v)
        px, py = _bitparts(x), _bitparts(y)
        if px is not None and py is not None:
            if all(a + w <= b or b + z <= a for _, a, w in px for _, b, z in py):
                return _join(px + py)
        return z3.Function('bor', IntS, IntS, IntS)(x, y)

    def ptrop(self, op, x, y, node):
        if op in ('==', '!='):
            e = self.ptreq(x, y)
            return e if op == '==' else z3.simplify(z3.Not(e))
        if isinstance(x, (Ptr, Iter)) and is_term(y):
            d = y if op == '+' else -y
            if op in ('+', '-'):
                if isinstance(x, Iter):
                    return Iter(x.lv, simp(x.i + d))
                return Ptr(x.lv, simp((x.off if x.off is not None else I(0)) + d))
        if is_term(x) and isinstance(y, (Ptr, Iter)) and op == '+':
            return self.ptrop('+', y, x, node)
        if op in ('-', '<', '>', '<=', '>=') and type(x) is type(y):
            if isinstance(x, Iter) and x.lv.same(y.lv):
                return isub(x.i, y.i) if op == '-' else self.binop(op, x.i, y.i, INT, node)
            if isinstance(x, Ptr) and x.lv is not None and y.lv is not None and x.lv.same(y.lv):
                a, b = x.off if x.off is not None else I(0), y.off if y.off is not None else I(0)
                return isub(a, b) if op == '-' else self.binop(op, a, b, INT, node)
        raise Unsupported('pointer operator ' + op)

    def ptreq(self, x, y):
        if isinstance(x, PIte):
            return ite(x.c, self.ptreq(x.a, y), self.ptreq(x.b, y))
        if isinstance(y, PIte):
            return ite(y.c, self.ptreq(x, y.a), self.ptreq(x, y.b))
        if isinstance(x, Iter) and isinstance(y, Iter) and x.lv.same(y.lv):
            return z3.simplify(x.i == y.i)
        if not isinstance(x, Ptr) or not isinstance(y, Ptr):
            raise Unsupported('pointer comparison')
        if x.lv is None or y.lv is None:
            return z3.BoolVal(x.lv is None and y.lv is None)
        if x.lv.same(y.lv):
            if x.off is None or y.off is None:
                return z3.BoolVal(x.off is None and y.off is None)
            return z3.simplify(x.off == y.off)
        if isinstance(x.lv, LV) and isinstance(y.lv, LV) and x.lv.root != y.lv.root:
            return z3.BoolVal(False)
        raise Unsupported('pointer comparison')

    def l_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        v = self.ev(b)
        lv = self.lv(a)
        old = self.rd(lv)
        aty = parse_type(tyname(a['type']))
        cty = parse_type(tyname(n['computeLHSType'])) if 'computeLHSType' in n else aty
        rty = parse_type(tyname(n['computeResultType'])) if 'computeResultType' in n else aty
        x = old
        if is_term(x) and cty.k == 'real':
            x = realv(x)
        elif is_term(x) and cty.k == 'int' and aty.k == 'int' and cty != aty:
            x = self.int_cast(x, aty, cty)
        r = self.binop(op, x, v, rty, n)
        if is_term(r):
            if aty.k == 'int' and r.sort() == RealS:
                r = self.f2i(r, aty, n)
            elif aty.k == 'int' and rty.k == 'int' and aty != rty:
                r = self.int_cast(r, rty, aty)
            elif aty.k == 'real' and aty.a == 'float' and rty.a != 'float' and not self.f32_exact:
                r = F32(r)
        self.wr(lv, r)
        return lv

    def e_CompoundAssignOperator(self, n):
        return self.rd(self.l_CompoundAssignOperator(n))

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        # the assert idiom: (cond) ? void(0) : __assert_fail(...)
        fail = _find_callee(b, '__assert_fail')
        x = boolv(self.ev(c))
        if fail:
            if self.check_assert:
                self.oblige(x, 'assert holds', 'assert', n)
            else:
                self.assume(x)
            return None
        d = self.decide(x)
        if d is True:
            return self.ev(a) if a.get('valueCategory') == 'prvalue' else self.rd(self.lv(a))
        if d is False:
            return self.ev(b) if b.get('valueCategory') == 'prvalue' else self.rd(self.lv(b))
        base = self.st
        self.st = base.copy()
        self.st.pc.append(('cond', x))
        v1 = self.ev_any(a)
        s1 = self.st
        self.st = base.copy()
        self.st.pc.append(('cond', z3.Not(x)))
        v2 = self.ev_any(b)
        s2 = self.st
        st, v = self.merge_states([(s1, v1), (s2, v2)])
        self.st = st
        return v

    def l_ConditionalOperator(self, n):
        c, a, b = n['inner']
        x = boolv(self.ev(c))
        d = self.decide(x)
        if d is True:
            return self.lv(a)
        if d is False:
            return self.lv(b)
        return LVIte(x, self.lv(a), self.lv(b))

    def l_ArraySubscriptExpr(self, n):
        a, b = n['inner']
        p, i = self.ev(a), self.ev(b)
        if is_term(p):
            p, i = i, p
        return self.deref(self.ptrop('+', p, i, n), n)

    def e_ArraySubscriptExpr(self, n):
        return self.rd(self.l_ArraySubscriptExpr(n))

    def e_InitListExpr(self, n):
        ty = parse_type(tyname(n['type']))
        kids = [c for c in n.get('inner', [])]
        if ty.k == 'arr':
            filler = 'array_filler' in n
            src = n.get('array_filler') or n.get('inner', [])
            items = [self.conv_to(self.ev(c), ty.a) for c in src if c and c.get('kind') != 'ImplicitValueInitExpr']
            while len(items) < ty.n:
                items.append(self.zero_value(ty.a))
            return Lit(ty.a, items[:ty.n])
        if ty.k == 'rec':
            fl = self.prog.all_fields(ty.a)
            f = {}
            for (fn, ft, _, _), c in itertools.zip_longest(fl, kids[:len(fl)]):
                f[fn] = self.conv_to(self.ev(c), parse_type(ft)) if c and c.get('kind') != 'ImplicitValueInitExpr' else self.zero_value(parse_type(ft))
            return Struct(ty.a, f)
        if ty.k == 'vec':
            return Lit(ty.a, [self.ev(c) for c in kids])
        if kids:
            return self.ev(kids[0])
        return self.zero_value(ty)

    def e_ImplicitValueInitExpr(self, n):
        return self.zero_value(parse_type(tyname(n['type'])))

    def e_CXXScalarValueInitExpr(self, n):
        return self.zero_value(parse_type(tyname(n['type'])))

    def e_CXXStdInitializerListExpr(self, n):
        v = self.ev(self._first(n))
        return v

    def e_CXXNewExpr(self, n):
        ty = parse_type(tyname(n['type'])).a
        inner = n.get('inner', [])
        if n.get('isArray'):
            size = self.ev(inner[0])
            el = None
            if ty.k == 'rec':
                raise Unsupported('new of record array')
            v = Base(ty, size, lambda i, nm=fresh_name('new'): self.symval(ty, nm, (i,)), tag='new')
            return Ptr(self.new_root(v, 'heap'), I(0))
        v = self.ev(inner[0]) if inner else self.default_value(ty)
        return Ptr(self.new_root(v, 'heap'))

    def e_CXXDeleteExpr(self, n):
        self.ev(self._first(n))
        return None

    # ------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, n):
        ty = parse_type(tyname(n['type']))
        return self.construct(ty, n.get('ctorType', {}).get('qualType', 'void ()'), n.get('inner', []), n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def l_CXXConstructExpr(self, n):
        return self.new_root(self.ev(n), 'tmp')

    l_CXXTemporaryObjectExpr = l_CXXConstructExpr

    def find_ctor(self, cls, ctor_type):
        r = self.prog.records.get(cls)
        if r is None:
            return None
        want = ctor_type.replace(' noexcept', '').replace(' ', '')
        for m in r.methods.get(cls.split('::')[-1], []):
            d = self.prog.decls[m]
            if d.kind == 'CXXConstructorDecl' and d.node['type']['qualType'].replace(' noexcept', '').replace(' ', '') == want:
                return m
        return None

    def construct(self, ty, ctor_type, argnodes, node=None, args=None):
        if ty.k == 'arr':
            return Lit(ty.a, [self.construct(ty.a, ctor_type, argnodes, node) for _ in range(ty.n)])
        if ty.k == 'rec' and ty.a in self.prog.records and self.prog.records[ty.a].complete:
            cls = ty.a
            m = self.find_ctor(cls, ctor_type)
            h = self.handlers.get('ctor:' + cls)
            if h is not None:
                r = h(self, ctor_type, argnodes)
                if r is not None:
                    return r
            fn = self.prog.funcs.get(m) if m else None
            if fn is not None:
                obj = Struct(cls, {})
                lv = self.new_root(obj, cls)
                self.construct_into(lv, cls, fn, argnodes, args)
                return self.rd(lv)
            if m is not None and not self.prog.decls[m].node.get('isImplicit') and not self.prog.decls[m].node.get('explicitlyDefaulted'):
                raise Unsupported('constructor %s %s has no body in the loaded sources' % (cls, ctor_type))
            n_args = len(args) if args is not None else len([a for a in argnodes if a.get('kind') != 'CXXDefaultArgExpr'])
            if n_args == 0:
                lv = self.new_root(Struct(cls, {}), cls)
                self.default_members(lv, cls, set(), frozenset())
                return self.rd(lv)
            if n_args == 1:
                v = args[0] if args is not None else self.ev_any(argnodes[0])
                if isinstance(v, (LV, LVIte)):
                    v = self.rd(v)
                return self.copy_value(v)
            raise Unsupported('implicit constructor of ' + cls)
        if args is None:
            args = [self.ev_any(a) if a.get('kind') != 'CXXDefaultArgExpr' else None for a in argnodes]
            args = [a for a in args if a is not None]
        if ty.k == 'vec':
            if not args:
                return Lit(ty.a, ())
            a0 = args[0]
            if isinstance(a0, Vec) and len(args) == 1:
                return self.copy_value(a0)
            if isinstance(a0, Iter) and len(args) >= 2 and isinstance(args[1], Iter):
                v = self.rd(a0.lv)
                return self.vslice(v, a0.i, isub(args[1].i, a0.i))
            if isinstance(a0, Ptr) and len(args) >= 2 and isinstance(args[1], Ptr):
                v = self.rd(a0.lv)
                return self.vslice(v, a0.off, isub(args[1].off, a0.off))
            if is_term(a0):
                val = args[1] if len(args) > 1 else self.zero_value(ty.a)
                return self.vfill(ty.a, a0, self.conv_to(val, ty.a))
            raise Unsupported('vector constructor')
        if ty.k == 'str':
            if not args:
                return Str(())
            if isinstance(args[0], Str):
                return args[0]
            return Opaque('string')
        if ty.k == 'stream':
            v = self.default_value(ty)
            if args:
                v = self.stream_open(v, args)
            return v
        if ty.k == 'iter':
            return args[0]
        if len(args) == 1:
            return args[0]
        return Opaque('construction of ' + repr(ty))

    def user_copy(self, cls):
        """constructor run to copy an object of class cls, or None"""
        m = self.find_ctor(cls, 'void (const %s &)' % cls)
        return self.prog.funcs.get(m) if m and not self.prog.decls[m].node.get('isImplicit') else None

    def deep(self, ty, seen=()):
        """does copying a value of this type run user code"""
        if ty.k in ('vec', 'arr'):
            return self.deep(ty.a, seen)
        if ty.k != 'rec' or ty.a not in self.prog.records or ty.a in seen:
            return False
        memo = self.__dict__.setdefault('_deep', {})
        r = memo.get(ty.a)
        if r is None:
            s2 = seen + (ty.a,)
            rec = self.prog.records[ty.a]
            r = (self.user_copy(ty.a) is not None
                 or any(self.deep(parse_type(f[1]), s2) for f in rec.fields)
                 or any(self.deep(parse_type(b), s2) for b in rec.bases))
            memo[ty.a] = r
        return r

    def copy_value(self, v):
        if isinstance(v, Struct) and v.cls in self.copy_contracts:
            return self.copy_contracts[v.cls](v)
        if isinstance(v, Struct) and self.deep(Ty('rec', v.cls)):
            fn = self.user_copy(v.cls)
            if fn is not None:
                src = self.new_root(v, 'copied')
                lv = self.new_root(Struct(v.cls, {}), v.cls)
                self.construct_into(lv, v.cls, fn, [], [src])
                return self.rd(lv)
            return Struct(v.cls, {k: self.copy_value(x) for k, x in v.f.items()})
        if isinstance(v, Vec) and self.deep(v.ety):
            if not isinstance(v, Lit):
                h = self.copy_contracts.get(v.ety.a) if v.ety.k == 'rec' else None
                if h:       # each element is copied through the contract of its copy constructor
                    return Base(v.ety, v.len(), lambda i: h(v.get(i, self)))
                raise Unsupported('copy of a sequence of objects with their own copy constructor')
            return Lit(v.ety, [self.copy_value(x) for x in v.items])
        return v

    def default_members(self, lv, cls, skip, inits):
        """default construct bases and fields of cls not in skip"""
        r = self.prog.records[cls]
        for b in r.bases:
            bn = parse_type(b).a
            if bn in skip:
                continue
            m = self.find_ctor(bn, 'void ()')
            fn = self.prog.funcs.get(m) if m else None
            if fn is not None:
                self.construct_into(lv, bn, fn, [], [])
            else:
                self.default_members(lv, bn, set(), frozenset())
        for fn, ft, init, tu in r.fields:
            if fn in skip:
                continue
            self.init_field(lv, fn, ft, init, tu)

    def init_field(self, lv, fn, ft, init, tu):
        ty = parse_type(ft)
        if init is not None:
            fr = Frame(self.frames[-1].fn if self.frames else None, tu)
            fr.this = lv
            self.frames.append(fr)
            try:
                v = self.conv_to(self.ev(init), ty)
            finally:
                self.frames.pop()
        elif ty.k == 'ref':
            raise Unsupported('reference member')
        else:
            v = self.default_value(ty, fn)
        self.set_field(lv, fn, v)

    def set_field(self, lv, fn, v):
        self.wr(lv.fld(fn) if False else lv, self.rd(lv).with_(fn, v))

    def construct_into(self, lv, cls, fn, argnodes, args=None):
        """run constructor fn on the object at lv (lv.cls part)"""
        self.enter(fn)
        fr = Frame(fn, fn.tu)
        fr.this = lv
        self.bind_params(fr, fn, argnodes, args)
        self.frames.append(fr)
        try:
            r = self.prog.records[cls]
            # delegating constructor
            inits = fn.inits
            by = {}
            for i in inits:
                if 'anyInit' in i:
                    fb = self.prog.byid.get((fn.tu, i['anyInit'].get('id')))
                    by[fb[2] if fb and fb[0] == 'field' else i['anyInit'].get('name')] = i
                elif 'baseInit' in i:
                    by['base:' + parse_type(tyname(i['baseInit'])).a] = i
                elif 'delegatingInit' in i:
                    by['delegate'] = i
            if 'delegate' in by:
                e = by['delegate']['inner'][0]
                v = self.ev(e)
                self.wr(lv, v)
            else:
                for b in r.bases:
                    bn = parse_type(b).a
                    i = by.get('base:' + bn)
                    if i is not None and i.get('inner'):
                        e = i['inner'][0]
                        while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                            e = e['inner'][0]
                        if e['kind'] == 'CXXConstructExpr':
                            m = self.find_ctor(bn, e.get('ctorType', {}).get('qualType', 'void ()'))
                            bf = self.prog.funcs.get(m) if m else None
                            if bf is not None:
                                self.construct_into(lv, bn, bf, e.get('inner', []))
                                continue
                            if e.get('inner'):
                                src = self.ev_any(e['inner'][0])
                                for f2, _, _, _ in self.prog.all_fields(bn):
                                    self.set_field(lv, f2, src.f[f2])
                                continue
                    self.default_members(lv, bn, set(), frozenset())
                for fname, ft, init, tu in r.fields:
                    i = by.get(fname)
                    if i is not None and i.get('inner'):
                        e = i['inner'][0]
                        ty = parse_type(ft)
                        if e['kind'] == 'CXXDefaultInitExpr':
                            self.init_field(lv, fname, ft, init, tu)
                        elif ty.k == 'ref':
                            self.set_field(lv, fname, Ptr(self.lv_or_temp(e)))
                        else:
                            self.set_field(lv, fname, self.conv_to(self.ev(e), ty))
                    else:
                        self.init_field(lv, fname, ft, init, tu)
            if self.rd(lv).cls in (None, cls) or True:
                pass
            self.stmt(fn.body)
            self.finish(fr)
        finally:
            self.frames.pop()
            self.depth -= 1

    # ------------------------------------------------------------ calls
    def enter(self, fn):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion in %s' % fn.qname)
        self.functions.add(fn.sig())

    def bind_params(self, fr, fn, argnodes, args=None):
        """args: list of values / LVs already evaluated (LV for reference parameters)"""
        n = len(fn.params)
        if args is None:
            args = []
            for i, p in enumerate(fn.params):
                ty = parse_type(tyname(p['type']))
                a = argnodes[i] if i < len(argnodes) else None
                if a is None or a.get('kind') == 'CXXDefaultArgExpr':
                    args.append(self.default_arg(fn, i, ty))
                elif ty.k == 'ref':
                    args.append(self.lv_or_temp(a))
                else:
                    args.append(self.conv_to(self.ev_any(a), ty))
        else:
            args = list(args)
            while len(args) < n:
                args.append(self.default_arg(fn, len(args), parse_type(tyname(fn.params[len(args)]['type']))))
        for p, a in zip(fn.params, args):
            ty = parse_type(tyname(p['type']))
            key = (fn.tu, p['id'])
            if ty.k == 'ref':
                if not isinstance(a, (LV, LVIte)):
                    a = self.new_root(a, 'tmp')
                fr.env[key] = a
            else:
                if isinstance(a, (LV, LVIte)):
                    a = self.rd(a)
                fr.env[key] = self.new_root(a, p.get('name', 'arg'))

    def default_arg(self, fn, i, ty):
        d = self.prog.decls.get(fn.mangled, fn)
        for cand in (d, fn):
            p = cand.params[i]
            if p.get('inner'):
                fr = Frame(cand, cand.tu)
                self.frames.append(fr)
                try:
                    e = p['inner'][-1]
                    if ty.k == 'ref':
                        return self.lv_or_temp(e)
                    return self.conv_to(self.ev(e), ty)
                finally:
                    self.frames.pop()
        raise Unsupported('default argument of ' + fn.qname)

    def call_func(self, fn, this, argnodes, args=None, node=None):
        """call a function of the program; returns value, or LV for reference results"""
        h = self.handlers.get(fn.mangled) or self.handlers.get(fn.qname)
        if h is not None:
            if args is None:
                args = []
                for i, p in enumerate(fn.params):
                    ty = parse_type(tyname(p['type']))
                    a = argnodes[i] if i < len(argnodes) else None
                    if a is None or a.get('kind') == 'CXXDefaultArgExpr':
                        args.append(self.default_arg(fn, i, ty))
                    elif ty.k == 'ref':
                        args.append(self.lv_or_temp(a))
                    else:
                        args.append(self.ev_any(a))
            self.used_contracts.add(fn.sig())
            return h(self, this, args, fn)
        f = self.prog.funcs.get(fn.mangled)
        if f is None:
            raise Unsupported('function %s has no body in the loaded sources' % fn.qname)
        self.enter(f)
        fr = Frame(f, f.tu)
        fr.this = this
        rt = parse_type(f.rtype)
        fr.retref = rt.k == 'ref'
        self.bind_params(fr, f, argnodes, args)
        self.frames.append(fr)
        try:
            self.stmt(f.body)
            return self.finish(fr, rt)
        finally:
            self.frames.pop()
            self.depth -= 1

    def finish(self, fr, rt=None):
        outs = list(fr.rets)
        if self.st is not None:
            outs.append((self.st, None))
        if rt is not None and rt.k != 'void':
            withv = [o for o in outs if o[1] is not None]
            if len(withv) != len(outs) and withv:
                outs = withv       # falling off the end of a value function (after assert(false)) is UB
        m = self.merge_states(outs)
        if m is None:
            raise Unsupported('function never returns')
        self.st = m[0]
        v = m[1]
        if rt is not None and v is not None and rt.k in ('int', 'real', 'bool') and is_term(v):
            v = self.conv_to(v, rt)
        return v

    def e_CXXMemberCallExpr(self, n):
        v = self.member_call(n)
        if isinstance(v, (LV, LVIte)):
            return self.rd(v)
        return v

    def l_CXXMemberCallExpr(self, n):
        v = self.member_call(n)
        if isinstance(v, (LV, LVIte)):
            return v
        return self.new_root(v, 'tmp')

    def member_call(self, n):
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        args = n['inner'][1:]
        base = me['inner'][0]
        tu = self.frames[-1].tu
        b = self.prog.byid.get((tu, me.get('referencedMemberDecl')))
        if me.get('isArrow'):
            p = self.ev(base)
            lv = self.deref(p, n) if not isinstance(p, Opaque) else p
        else:
            lv = self.lv(base) if base.get('valueCategory') != 'prvalue' else self.new_root(self.ev(base), 'tmp')
        if b is not None and b[0] == 'func':
            return self.method(b[1], lv, args, None, n)
        bt = parse_type(tyname(base['type']))
        if bt.k == 'ptr':
            bt = bt.a
        return self.std_method(me['name'], lv, bt, args, n)

    def dyn_class(self, lv):
        v = self.rd(lv)
        return v.cls if isinstance(v, Struct) else None

    def method(self, mangled, lv, argnodes, args, node):
        fn = self.prog.decls[mangled]
        if fn.virtual and isinstance(lv, LVIte):
            raise Unsupported('virtual call on a choice of objects')
        if fn.virtual:
            h = self.handlers.get(fn.mangled) or self.handlers.get(fn.qname)
            if h is None:
                dc = self.dyn_class(lv)
                if dc is not None:
                    m = self.prog.find_override(dc, fn)
                    if m:
                        fn = self.prog.decls[m]
        return self.call_func(fn, lv, argnodes, args, node)

    def e_CallExpr(self, n):
        v = self.call_expr(n)
        if isinstance(v, (LV, LVIte)):
            return self.rd(v)
        return v

    def l_CallExpr(self, n):
        v = self.call_expr(n)
        if isinstance(v, (LV, LVIte)):
            return v
        return self.new_root(v, 'tmp')

    def call_expr(self, n):
        cal = n['inner'][0]
        while cal['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            cal = cal['inner'][0]
        args = n['inner'][1:]
        if cal['kind'] == 'MemberExpr':   # static member through object
            b = self.prog.byid.get((self.frames[-1].tu, cal.get('referencedMemberDecl')))
            if b and b[0] == 'func':
                return self.call_func(self.prog.decls[b[1]], None, args, None, n)
        if cal['kind'] != 'DeclRefExpr':
            raise Unsupported('indirect call')
        rd = cal['referencedDecl']
        b = self.prog.byid.get((self.frames[-1].tu, rd['id']))
        if b is not None and b[0] == 'func':
            return self.call_func(self.prog.decls[b[1]], None, args, None, n)
        return self.std_call(rd['name'], args, n)

    def e_CXXOperatorCallExpr(self, n):
        v = self.op_call(n)
        if isinstance(v, (LV, LVIte)):
            return self.rd(v)
        return v

    def l_CXXOperatorCallExpr(self, n):
        v = self.op_call(n)
        if isinstance(v, (LV, LVIte)):
            return v
        if isinstance(v, tuple):
            return v
        return self.new_root(v, 'tmp')

    def op_call(self, n):
        cal = n['inner'][0]
        while cal['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            cal = cal['inner'][0]
        rd = cal.get('referencedDecl', {})
        name = rd.get('name', '')
        args = n['inner'][1:]
        b = self.prog.byid.get((self.frames[-1].tu, rd.get('id')))
        if b is not None and b[0] == 'func':
            fn = self.prog.decls[b[1]]
            if fn.kind == 'CXXMethodDecl':
                implicit = fn.node.get('isImplicit') or fn.node.get('explicitlyDefaulted')
                if name == 'operator=' and (implicit or fn.mangled not in self.prog.funcs):
                    v = self.ev_any(args[1])
                    lv = self.lv(args[0])
                    self.wr(lv, self.copy_value(self.rd(v) if isinstance(v, (LV, LVIte)) else v))
                    return lv
                # C++17: right operand of assignment is sequenced first; for others order is immaterial here
                lv = self.lv(args[0]) if args[0].get('valueCategory') != 'prvalue' else self.new_root(self.ev(args[0]), 'tmp')
                return self.method(b[1], lv, args[1:], None, n)
            return self.call_func(fn, None, args, None, n)
        return self.std_op(name, args, n)

    # ------------------------------------------------------------ sequences
    def vfill(self, ety, n, val):
        c = as_int(n)
        if c is not None and c <= 64:
            return Lit(ety, [val] * max(c, 0))
        return Fill(ety, n, val)

    def vslice(self, v, a, n):
        if as_int(a) == 0 and (n.eq(v.len()) or as_int(isub(n, v.len())) == 0):
            return v
        ca, cn = as_int(a), as_int(n)
        if isinstance(v, Lit) and ca is not None and cn is not None:
            return Lit(v.ety, v.items[ca:ca + cn])
        return Slice(v.ety, v, a, n)

    def vresize(self, v, n, val):
        old = v.len()
        c, d = as_int(old), as_int(n)
        if c is not None and d is not None and isinstance(v, Lit):
            if d <= c:
                return Lit(v.ety, v.items[:d])
            if d <= 64:
                return Lit(v.ety, v.items + (val,) * (d - c))
        if as_int(isub(n, old)) == 0 or self.provable(n == old):
            return v
        if c == 0:
            return self.vfill(v.ety, n, val)
        if self.provable(n <= old):
            return Slice(v.ety, v, I(0), n)
        e = isub(n, old)
        if self.provable(n >= old):
            return App(v.ety, v, e, lambda i: val)
        return VIte(v.ety, n <= old, Slice(v.ety, v, I(0), n), App(v.ety, v, e, lambda i: val))

    def vpush(self, v, x):
        if isinstance(v, Lit) and len(v.items) < 4000:
            return Lit(v.ety, v.items + (x,))
        return Push(v.ety, v, (x,))

    def vconcat(self, v, w, a=None, n=None):
        """append elements of w[a..a+n)"""
        a = I(0) if a is None else a
        n = w.len() if n is None else n
        c = as_int(n)
        if c is not None and c <= 16:
            for i in range(c):
                v = self.vpush(v, w.get(iadd(a, I(i)), self))
            return v
        return App(v.ety, v, n, lambda i: w.get(iadd(i, a), self), info=('concat', w, a))

    # ------------------------------------------------------------ standard library
    def std_method(self, name, lv, bt, args, node):
        if bt.k == 'vec' or (isinstance(lv, (LV, LVIte)) and isinstance(self.rd(lv), Vec)):
            return self.vec_method(name, lv, bt, args, node)
        if bt.k == 'str':
            return self.str_method(name, lv, args, node)
        if bt.k == 'stream' or (isinstance(lv, (LV,)) and isinstance(self.rd(lv), Struct) and self.rd(lv).cls == 'stream'):
            return self.stream_method(name, lv, args, node)
        raise Unsupported('method %s of %r' % (name, bt))

    def vec_method(self, name, lv, bt, args, node):
        v = self.rd(lv)
        if name == 'size':
            return v.len()
        if name == 'empty':
            c = as_int(v.len())
            return z3.BoolVal(c == 0) if c is not None else v.len() == 0
        if name in ('operator[]', 'at'):
            return self.vec_index(lv, self.ev(args[0]), node)
        if name in ('back', 'front'):
            n = v.len()
            self.oblige(n > 0, 'vector is not empty', 'bounds', node)
            return lv.idx(isub(n, I(1)) if name == 'back' else I(0))
        if name in ('push_back', 'emplace_back'):
            x = self.conv_to(self.ev_any(args[0]), bt.a) if args else self.default_value(bt.a)
            self.wr(lv, self.vpush(self.rd(lv), self.copy_value(x)))
            return None
        if name == 'pop_back':
            self.oblige(v.len() > 0, 'vector is not empty', 'bounds', node)
            self.wr(lv, self.vslice(v, I(0), isub(v.len(), I(1))))
            return None
        if name == 'clear':
            self.wr(lv, Lit(v.ety, ()))
            return None
        if name in ('reserve', 'shrink_to_fit'):
            for a in args:
                self.ev_any(a)
            return None
        if name == 'capacity':
            raise Unsupported('capacity')
        if name == 'data':
            return Ptr(lv, I(0))
        if name in ('begin', 'cbegin'):
            return Iter(lv, I(0))
        if name in ('end', 'cend'):
            return Iter(lv, v.len())
        if name == 'resize':
            n = self.ev(args[0])
            val = self.conv_to(self.ev_any(args[1]), v.ety) if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr' else self.zero_or_default(v.ety)
            self.oblige_nonneg(n, node)
            self.wr(lv, self.vresize(self.rd(lv), n, val))
            return None
        if name == 'assign':
            a = [self.ev_any(x) for x in args]
            if isinstance(a[0], (Iter, Ptr)):
                src = self.rd(a[0].lv)
                i0 = a[0].i if isinstance(a[0], Iter) else a[0].off
                i1 = a[1].i if isinstance(a[1], Iter) else a[1].off
                self.wr(lv, self.vslice(src, i0, isub(i1, i0)))
            elif isinstance(a[0], Vec):
                self.wr(lv, a[0])
            else:
                self.oblige_nonneg(a[0], node)
                self.wr(lv, self.vfill(v.ety, a[0], self.conv_to(a[1], v.ety)))
            return None
        if name == 'insert':
            a = [self.ev_any(x) for x in args]
            v = self.rd(lv)
            if not isinstance(a[0], Iter):
                raise Unsupported('insert')
            pos = a[0].i
            if len(a) == 2 and not isinstance(a[1], Vec):
                self.oblige(z3.And(pos >= 0, pos <= v.len()), 'insertion point inside the vector', 'bounds', node)
                if as_int(isub(pos, v.len())) == 0:
                    self.wr(lv, self.vpush(v, a[1]))
                elif isinstance(v, Lit) and as_int(pos) is not None:
                    k = as_int(pos)
                    self.wr(lv, Lit(v.ety, v.items[:k] + (a[1],) + v.items[k:]))
                else:
                    self.wr(lv, Ins(v.ety, v, pos, self.conv_to(a[1], v.ety)))
                return Iter(lv, pos)
            if len(a) == 3 and isinstance(a[1], (Iter, Ptr)):
                src = self.rd(a[1].lv)
                i0 = a[1].i if isinstance(a[1], Iter) else a[1].off
                i1 = a[2].i if isinstance(a[2], Iter) else a[2].off
                if as_int(isub(pos, v.len())) == 0 or self.provable(pos == v.len()):
                    self.wr(lv, self.vconcat(v, src, i0, isub(i1, i0)))
                    return Iter(lv, pos)
                if as_int(pos) == 0:
                    self.wr(lv, self.vconcat(self.vslice(src, i0, isub(i1, i0)), v))
                    return Iter(lv, pos)
            raise Unsupported('insert')
        if name == 'erase':
            a = [self.ev_any(x) for x in args]
            if len(a) == 1 and isinstance(a[0], Iter):
                v = self.rd(lv)
                pos = a[0].i
                self.oblige(z3.And(pos >= 0, pos < v.len()), 'erased position inside the vector', 'bounds', node)
                if isinstance(v, Lit) and as_int(pos) is not None:
                    k = as_int(pos)
                    self.wr(lv, Lit(v.ety, v.items[:k] + v.items[k + 1:]))
                else:
                    self.wr(lv, self.vconcat(self.vslice(v, I(0), pos), v, iadd(pos, I(1)), isub(isub(v.len(), pos), I(1))))
                return Iter(lv, pos)
            raise Unsupported('erase')
        if name == 'swap':
            o = self.lv(args[0])
            a, b = self.rd(lv), self.rd(o)
            self.wr(lv, b)
            self.wr(o, a)
            return None
        raise Unsupported('vector method ' + name)

    def zero_or_default(self, ty):
        return self.zero_value(ty) if ty.k in ('int', 'real', 'bool', 'ptr') else self.default_value(ty)

    def oblige_nonneg(self, n, node):
        c = as_int(n)
        if c is not None and c >= 0:
            return
        self.oblige(z3.And(n >= 0, n < 2 ** 63), 'size is not negative', 'bounds', node)

    def vec_index(self, lv, i, node):
        i = intv(i)
        n = self.rd(lv).len()
        ci, cn = as_int(i), as_int(n)
        if ci is not None and cn is not None and 0 <= ci < cn:
            pass
        elif self.check_bounds:
            self.oblige(z3.And(i >= 0, i < n), 'index inside the vector', 'bounds', node)
        return lv.idx(i)

    def std_op(self, name, args, node):
        a0 = args[0]
        t0 = parse_type(tyname(a0['type']))
        if t0.k == 'ref':
            t0 = t0.a
        if name == 'operator[]':
            if t0.k == 'vec':
                lv = self.lv(a0) if a0.get('valueCategory') != 'prvalue' else self.new_root(self.ev(a0), 'tmp')
                return self.vec_index(lv, self.ev(args[1]), node)
            if t0.k in ('iter', 'ptr'):
                p = self.ev_any(a0)
                return self.deref(self.ptrop('+', p, self.ev(args[1]), node), node)
            raise Unsupported('operator[] on ' + repr(t0))
        if name in ('operator<<', 'operator>>') :
            if t0.k == 'stream' or self._is_stream(a0):
                return self.stream_op(name, a0, args[1], node)
        if name == 'operator=':
            v = self.ev_any(args[1])
            lv = self.lv(a0)
            self.wr(lv, self.copy_value(self.rd(v) if isinstance(v, (LV, LVIte)) else v))
            return lv
        if t0.k == 'iter' or isinstance(t0, Ty) and t0.k == 'other' and 'iterator' in str(t0.a):
            if name == 'operator*':
                it = self.ev_any(a0)
                v = self.rd(it.lv)
                self.oblige(z3.And(it.i >= 0, it.i < v.len()), 'iterator is dereferenceable', 'bounds', node)
                return it.lv.idx(it.i)
            if name == 'operator->':
                it = self.ev_any(a0)
                return Ptr(it.lv, it.i)
            if name in ('operator++', 'operator--'):
                lv = self.lv(a0)
                old = self.rd(lv)
                self.wr(lv, self.bump(old, 1 if name == 'operator++' else -1))
                return old if len(args) > 1 else lv
            if name in ('operator+=', 'operator-='):
                lv = self.lv(a0)
                self.wr(lv, self.ptrop(name[8], self.rd(lv), self.ev(args[1]), node))
                return lv
            if name in ('operator+', 'operator-', 'operator==', 'operator!=', 'operator<'):
                return self.ptrop(name[8:], self.ev_any(a0), self.ev_any(args[1]), node)
        if name in ('operator==', 'operator!=', 'operator+', 'operator-', 'operator<') :
            x = self.ev_any(a0)
            y = self.ev_any(args[1])
            if isinstance(x, (Iter, Ptr)) and isinstance(y, (Iter, Ptr)):
                return self.ptrop(name[8:], x, y, node)
            if isinstance(x, (Iter, Ptr)):
                return self.ptrop(name[8:], x, y, node)
            if isinstance(x, Str) or isinstance(y, Str):
                return self.str_op(name[8:], x, y)
            if name == 'operator==' and isinstance(x, Vec):
                raise Unsupported('vector comparison')
        if name in ('operator+=',):
            lv = self.lv(a0)
            x, y = self.rd(lv), self.ev_any(args[1])
            if isinstance(x, Str):
                self.wr(lv, self.str_op('+', x, y))
                return lv
        if name == 'operator!':
            return self.stream_fail(a0)
        if name == 'operator|':
            self.ev_any(a0), self.ev_any(args[1])
            return Opaque('flags')
        raise Unsupported('operator %s on %r' % (name, t0))

    def _is_stream(self, n):
        try:
            t = parse_type(tyname(n['type']))
        except Exception:
            return False
        return t.k == 'stream'

    def std_call(self, name, args, node):
        if name in ('move', 'forward', 'as_const'):
            return self.lv_or_temp(args[0])
        if name in ('sqrt', 'sqrtf'):
            x = realv(self.ev(args[0]))
            v = as_num(x)
            if v is not None and v >= 0:
                import math
                p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if p * p == v.numerator and q * q == v.denominator:
                    return R(Fraction(p, q))
            elif self.check_div:
                self.oblige(x >= 0, 'square root of a non-negative number', 'domain', node)
            return SQRT(x)
        if name in ('sin', 'cos', 'sinf', 'cosf'):
            x = realv(self.ev(args[0]))
            if as_num(x) == 0:
                return R(0 if name[0] == 's' else 1)
            return (SIN if name[0] == 's' else COS)(x)
        if name in ('floor', 'ceil', 'trunc', 'round', 'lround') and len(args) == 1:
            x = realv(self.ev(args[0]))
            half = R(Fraction(1, 2))
            down, up = z3.ToInt(x), -z3.ToInt(-x)
            r = {'floor': lambda: down, 'ceil': lambda: up, 'trunc': lambda: z3.If(x >= 0, down, up),
                 'round': lambda: z3.If(x >= 0, z3.ToInt(x + half), -z3.ToInt(half - x))}[name.lstrip('l')]()
            return r if name == 'lround' else z3.ToReal(r)
        if name in ('fabs', 'abs', 'fabsf'):
            x = self.ev(args[0])
            if not is_term(x):
                raise Unsupported('abs of %s' % _tn(x))
            c = as_num(x)
            if c is not None:
                return I(abs(int(c))) if x.sort() == IntS else R(abs(c))
            return z3.If(x >= 0, x, -x)
        if name in ('min', 'max') and len(args) == 2:
            a, b = self.ev_any(args[0]), self.ev_any(args[1])
            if a.sort() != b.sort():
                a, b = realv(a), realv(b)
            c = (b < a) if name == 'min' else (a < b)
            u, v = as_num(a), as_num(b)
            if u is not None and v is not None:
                return b if ((v < u) if name == 'min' else (u < v)) else a
            d = self.decide(c)
            if d is not None:
                return b if d else a
            return ite(c, b, a)
        if name == 'pow':
            x, y = realv(self.ev(args[0])), self.ev(args[1])
            c = as_num(y)
            if c is not None and c.denominator == 1 and 0 <= c <= 6:
                r = R(1)
                for _ in range(int(c)):
                    r = r * x if as_num(r) != 1 else x
                return r
            return POW(x, realv(y))
        if name == 'acos':
            return ACOS(realv(self.ev(args[0])))
        if name == 'atan2':
            return ATAN2(realv(self.ev(args[0])), realv(self.ev(args[1])))
        if name in UF1:
            return UF1[name](realv(self.ev(args[0])))
        if name in ('isnan', 'isinf'):
            self.ev(args[0])
            self.assumptions.add('no NaN or infinity arises')
            return z3.BoolVal(False)
        if name in ('isfinite',):
            self.ev(args[0])
            return z3.BoolVal(True)
        if name == 'swap':
            a, b = self.lv(args[0]), self.lv(args[1])
            x, y = self.rd(a), self.rd(b)
            self.wr(a, y)
            self.wr(b, x)
            return None
        if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'data'):
            lv = self.lv(args[0])
            return self.vec_method(name, lv, parse_type(tyname(args[0]['type'])), [], node)
        if name == 'fill':
            a, b, v = [self.ev_any(x) for x in args]
            return self.range_fill(a, b, v)
        if name == 'fill_n':
            a, n, v = [self.ev_any(x) for x in args]
            return self.range_fill(a, self.ptrop('+', a, n, node), v)
        if name == 'memset':
            a, v, n = [self.ev_any(x) for x in args]
            return self.range_fill(a, self.ptrop('+', a, n, node), v)
        if name in ('copy', 'memcpy', 'memmove'):
            a = [self.ev_any(x) for x in args]
            if name == 'copy':
                src, end, dst = a
                n = self.ptrop('-', end, src, node)
            else:
                dst, src, n = a
                t = parse_type(tyname(args[0]['type']))
                inner = _strip(args[0])
                et = parse_type(tyname(inner['type']))
                sz = _sizeof(et.a) if et.k in ('ptr', 'arr') and et.a is not None else None
                if et.k == 'ptr' and et.a.k == 'void':
                    sz = 1
                if sz is None:
                    raise Unsupported('memcpy of unknown element size')
                if sz > 1:
                    c = as_int(n)
                    if c is not None and c % sz == 0:
                        n = I(c // sz)
                    else:
                        q = _exact_div(n, sz)
                        if q is None:
                            raise Unsupported('memcpy size')
                        n = q
            return self.range_copy(dst, src, n, node)
        if name == 'accumulate':
            raise Unsupported('accumulate')
        if name in ('to_string',):
            v = self.ev_any(args[0])
            return Str((('num', 'to_string', v),))
        if name in ('printf', 'fprintf', 'puts'):
            for a in args:
                self.ev_any(a)
            return I(0)
        if name == 'rand':
            return self.symval(INT, fresh_name('rand'))
        if name == '__assert_fail' or name in ('abort', 'exit', 'terminate'):
            if self.check_assert:
                self.oblige(z3.BoolVal(False), 'not reached', 'assert', node)
            self.st = None
            raise Unsupported('abort in expression')
        if name in ('getline',):
            return self.stream_getline(args, node)
        raise Unsupported('library function ' + name)

    def range_fill(self, a, b, v):
        if not isinstance(a, (Iter, Ptr)):
            raise Unsupported('fill')
        lo = a.i if isinstance(a, Iter) else a.off
        hi = b.i if isinstance(b, Iter) else b.off
        s = self.rd(a.lv)
        v = self.conv_to(v, s.ety)
        self.oblige(z3.And(lo >= 0, hi <= s.len()), 'range inside the array', 'bounds')
        if as_int(lo) == 0 and as_int(isub(hi, s.len())) == 0:
            self.wr(a.lv, self.vfill(s.ety, s.len(), v))
        else:
            self.wr(a.lv, Map(s.ety, s, lambda i: z3.And(i >= lo, i < hi), lambda i: v))
        return None

    def range_copy(self, dst, src, n, node):
        if not isinstance(dst, (Iter, Ptr)) or not isinstance(src, (Iter, Ptr)):
            raise Unsupported('copy')
        do = dst.i if isinstance(dst, Iter) else dst.off
        so = src.i if isinstance(src, Iter) else src.off
        d, s = self.rd(dst.lv), self.rd(src.lv)
        if not isinstance(d, Vec) or not isinstance(s, Vec) or do is None or so is None:
            raise Unsupported('copy between objects')
        c = as_int(n)
        self.oblige(z3.And(do >= 0, do + n <= d.len(), so >= 0, so + n <= s.len()), 'copied range inside both arrays', 'bounds', node)
        if c is not None and c <= 32:
            vals = [s.get(iadd(so, I(i)), self) for i in range(c)]
            for i, x in enumerate(vals):
                d = self.store_elem(d, iadd(do, I(i)), x)
            self.wr(dst.lv, d)
            return None
        self.wr(dst.lv, Map(d.ety, d, lambda i: z3.And(i >= do, i < do + n), lambda i: s.get(simp(i - do + so), self)))
        return None

    # ---- strings and streams: see streams.py (mixed in by the contracts that need them)
    def str_method(self, name, lv, args, node):
        v = self.rd(lv)
        if name in ('c_str', 'data'):
            return v
        if self.smodel is not None:
            r = self.smodel.strmethod(self, name, v)
            if r is not None:
                return r
        if name in ('size', 'length'):
            if isinstance(v, Str) and all(isinstance(p, str) for p in v.p):
                return I(sum(len(p) for p in v.p))
            return self.symval(parse_type('unsigned long'), fresh_name('strlen'))
        if name == 'empty':
            if isinstance(v, Str) and all(isinstance(p, str) for p in v.p):
                return z3.BoolVal(sum(len(p) for p in v.p) == 0)
            return self.symval(BOOL, fresh_name('strempty'))
        raise Unsupported('string method ' + name)

    def str_op(self, op, x, y):
        if op == '+':
            p = (x.p if isinstance(x, Str) else (('chr', x),)) + (y.p if isinstance(y, Str) else (('chr', y),))
            return Str(p)
        if op in ('==', '!='):
            if isinstance(x, Str) and isinstance(y, Str):
                if self.smodel is not None:
                    e = self.smodel.streq(self, x, y)
                    if e is not None:
                        return e if op == '==' else z3.Not(e)
                if all(isinstance(p, str) for p in x.p + y.p):
                    e = ''.join(x.p) == ''.join(y.p)
                    return z3.BoolVal(e if op == '==' else not e)
                return self.symval(BOOL, fresh_name('streq'))
        raise Unsupported('string operator ' + op)

    smodel = None      # file model supplied by a contract

    def stream_open(self, v, args):
        if self.smodel is not None:
            return self.smodel.open(self, v, args)
        return v.with_('open', self.symval(BOOL, fresh_name('opened')))

    def stream_method(self, name, lv, args, node):
        v = self.rd(lv)
        if self.smodel is not None and name in ('write', 'read', 'eof', 'good', 'fail', 'bad', 'operator bool', 'get', 'put', 'seekg', 'tellg', 'clear', 'ignore', 'gcount', 'peek'):
            return self.smodel.method(self, name, lv, args, node)
        if name == 'open':
            a = [self.ev_any(x) for x in args if x.get('kind') != 'CXXDefaultArgExpr']
            self.wr(lv, self.stream_open(v, a))
            return None
        if name == 'close':
            self.wr(lv, v.with_('open', z3.BoolVal(False)))
            return None
        if name == 'is_open':
            return v.f['open']
        if name == 'write':
            p, n = self.ev_any(args[0]), self.ev(args[1])
            self.emit(lv, self.tok('raw', self.rawbytes(p, n, args[0])))
            return lv
        if name in ('flush',):
            return lv
        if name in ('precision', 'setf', 'width'):
            for a in args:
                self.ev_any(a)
            return I(0)
        raise Unsupported('stream method ' + name)

    def rawbytes(self, p, n, node):
        src = _strip(node)
        if isinstance(p, Str):
            return ('str', p, n)
        if isinstance(p, Ptr) and p.lv is not None:
            if p.off is None:
                return ('obj', self.rd(p.lv), n, tyname(src['type']))
            return ('seq', self.rd(p.lv), p.off, n)
        raise Unsupported('raw write')

    def tok(self, kind, payload):
        return Struct('Tok', {'kind': kind, 'v': payload}) if is_term(payload) or isinstance(payload, Str) else Struct('Tok', {'kind': kind, 'v': RawTok(payload)})

    def emit(self, lv, t):
        v = self.rd(lv)
        self.wr(lv, v.with_('tok', self.vpush(v.f['tok'], t)))

    def stream_op(self, name, a0, a1, node):
        lv = self.lv(a0)
        if isinstance(lv, tuple):   # cout / cerr
            try:
                self.ev_any(a1)
            except Unsupported:
                pass
            return lv
        if name == 'operator<<':
            b = _strip(a1)
            if b['kind'] == 'DeclRefExpr' and b['referencedDecl']['name'] in ('endl', 'flush', 'ends', 'fixed', 'scientific'):
                if self.smodel is not None:
                    if b['referencedDecl']['name'] == 'endl':
                        self.smodel.put(self, lv, 'str', Str(('\n',)))
                elif b['referencedDecl']['name'] == 'endl':
                    self.emit(lv, self.tok('str', Str(('\n',))))
                return lv
            x = self.ev_any(a1)
            t = parse_type(tyname(a1['type']))
            if self.smodel is not None:
                if isinstance(x, (LV, LVIte)):
                    x = self.rd(x)
                self.smodel.put(self, lv, 'str' if not is_term(x) else 'chr' if t.k == 'int' and t.bits == 8 else 'int' if t.k == 'int' else 'real', x)
            elif isinstance(x, Str):
                self.emit(lv, self.tok('str', x))
            elif is_term(x):
                k = 'chr' if t.k == 'int' and t.bits == 8 else {'int': 'int', 'real': 'real', 'bool': 'bool'}.get(t.k, 'num')
                self.emit(lv, self.tok(k, x))
            else:
                raise Unsupported('stream output of %s' % _tn(x))
            return lv
        if self.smodel is not None:
            self.smodel.get(self, lv, self.lv(a1), parse_type(tyname(a1['type'])))
            return lv
        raise Unsupported('stream input')

    def stream_fail(self, a0):
        lv = self.lv(a0)
        if self.smodel is not None:
            return self.smodel.method(self, 'fail', lv, [], None)
        return self.symval(BOOL, fresh_name('fail'))

    def stream_getline(self, args, node):
        if self.smodel is not None:
            lv = self.lv(args[0])
            self.smodel.getline(self, lv, self.lv(args[1]))
            return lv
        raise Unsupported('getline')


class RawTok:
    def __init__(self, p):
        self.p = p


# ------------------------------------------------------------------ helpers
def _tn(x):
    if isinstance(x, Opaque):
        return 'Opaque(%s)' % x.why
    return type(x).__name__


def _strip(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and n.get('inner'):
        n = n['inner'][0]
    return n


def _common(a, b):
    n = 0
    for (k, x), (l, y) in zip(a, b):
        if x is y or x.eq(y):
            n += 1
        else:
            break
    return n


def _complement(a, b):
    if z3.is_not(a) and a.arg(0).eq(b):
        return True
    if z3.is_not(b) and b.arg(0).eq(a):
        return True
    s = z3.Solver()
    s.set('timeout', 200)
    s.set('rlimit', 100000)
    s.add(z3.Not(z3.Or(a, b)))
    return s.check() == z3.unsat


def _changed(s0, s1):
    for r, v in s0.store.items():
        if s1.store.get(r) is not v:
            return True
    return False


_hr = {}


def _has_real(t):
    k = t.get_id()
    r = _hr.get(k)
    if r is None:
        r = (_has_real0(t), t)
        _hr[k] = r
    return r[0]


def _has_real0(t):
    if z3.is_quantifier(t):
        return True
    if z3.is_arith(t) and t.sort() == RealS:
        return True
    return any(_has_real(c) for c in t.children())


_atomcache = {}


def subterms(terms):
    seen = {}
    st = list(terms)
    while st:
        t = st.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen[k] = t
        if z3.is_quantifier(t):
            continue
        st.extend(t.children())
    return seen.values()


def has_var(t):
    for s in subterms([t]):
        if z3.is_var(s):
            return True
    return False


def range_facts(terms):
    out = []
    for t in subterms(terms):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == IntS:
            out += leaf_range(t)
    return out


def leaf_range(t):
    """facts about a leaf: RANGES[name] = (lo, hi[, guard(args)])"""
    r = RANGES.get(t.decl().name())
    out = []
    if r:
        g = r[2](t.children()) if len(r) > 2 else None
        for f in ([t >= r[0]] if r[0] is not None else []) + ([t <= r[1]] if r[1] is not None else []):
            out.append(f if g is None else z3.Implies(g, f))
    return out


def _find_callee(n, name):
    if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('name') == name:
        return True
    return any(_find_callee(c, name) for c in n.get('inner', []) if c)


def _f32(x):
    import struct
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return float('inf')


def _decimal_ok(s):
    try:
        f = Fraction(float(s))
        g = f.limit_denominator(10 ** 15)
        return float(g) == float(s)
    except (ValueError, OverflowError):
        return False


_esc = {'n': '\n', 't': '\t', '\\': '\\', '"': '"', '0': '\0', 'r': '\r', "'": "'"}


def _unquote(s):
    i = s.find('"')
    s = s[i + 1:s.rfind('"')]
    out = ''
    j = 0
    while j < len(s):
        if s[j] == '\\' and j + 1 < len(s):
            out += _esc.get(s[j + 1], s[j + 1])
            j += 2
        else:
            out += s[j]
            j += 1
    return out


def _sizeof(ty):
    if ty.k == 'int':
        return ty.bits // 8
    if ty.k == 'real':
        return 4 if ty.a == 'float' else 8
    if ty.k == 'bool':
        return 1
    if ty.k == 'ptr':
        return 8
    if ty.k == 'arr':
        s = _sizeof(ty.a)
        return None if s is None else s * ty.n
    return None


def _exact_div(t, d):
    """t / d when t is syntactically d * q"""
    t = simp(t)
    if z3.is_mul(t):
        c = as_int(t.arg(0))
        if c is not None and c % d == 0:
            r = t.arg(1)
            for a in t.children()[2:]:
                r = r * a
            return imul(I(c // d), r)
    if z3.is_add(t):
        parts = [_exact_div(a, d) for a in t.children()]
        if all(p is not None for p in parts):
            r = parts[0]
            for p in parts[1:]:
                r = iadd(r, p)
            return r
    c = as_int(t)
    if c is not None and c % d == 0:
        return I(c // d)
    return None


def _unwrap(v, a):
    """If(r>=0, r, r+2^n) -> r"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        r = v.arg(1)
        d = as_int(isub(v.arg(2), r))
        if d == 2 ** a.bits:
            return r
    return None


def _width(t):
    """number of bits of a term known to be in [0, 2^w)"""
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = RANGES.get(t.decl().name())
            if r and r[0] == 0 and r[1] is not None and (r[1] + 1) & r[1] == 0:
                return (r[1] + 1).bit_length() - 1
        if t.decl().kind() == z3.Z3_OP_MOD:
            m = as_int(t.arg(1))
            if m and m & (m - 1) == 0:
                return m.bit_length() - 1
        if t.decl().kind() == z3.Z3_OP_ITE:
            a, b = _width(t.arg(1)), _width(t.arg(2))
            if a is not None and b is not None:
                return max(a, b)
    return None


def _bitparts(t):
    """term as a sum of disjoint fields [(term, shift, width)]"""
    c = as_int(t)
    if c is not None:
        if c < 0:
            return None
        if c == 0:
            return []
        s = (c & -c).bit_length() - 1
        return [(I(c >> s), s, (c >> s).bit_length())]
    if z3.is_add(t):
        out = []
        for x in t.children():
            p = _bitparts(x)
            if p is None:
                return None
            out += p
        out.sort(key=lambda p: p[1])
        for (a, s, w), (b, z, _) in zip(out, out[1:]):
            if s + w > z:
                return None
        return out
    if z3.is_mul(t) and t.num_args() == 2:
        c = as_int(t.arg(0))
        if c and c > 0 and c & (c - 1) == 0:
            p = _bitparts(t.arg(1))
            if p is None:
                return None
            s = c.bit_length() - 1
            return [(a, b + s, w) for a, b, w in p]
        return None
    w = _width(t)
    if w is not None:
        return [(t, 0, w)]
    return None


def _join(parts):
    r = I(0)
    for t, s, w in sorted(parts, key=lambda p: p[1]):
        r = iadd(r, imul(I(2 ** s), t) if s else t)
    return r
