"""Symbolic values: z3 scalars, structs, functional sequences, pointers."""
import itertools, re
import z3

_ctr = itertools.count()


def fresh_name(base):
    return '%s!%d' % (base, next(_ctr))


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'a', 'n', 'bits', 'signed')

    def __init__(self, k, a=None, n=None, bits=0, signed=True):
        self.k, self.a, self.n, self.bits, self.signed = k, a, n, bits, signed

    def __repr__(self):
        return 'Ty(%s%s)' % (self.k, ':' + repr(self.a) if self.a is not None else '')

    def __eq__(self, o):
        return isinstance(o, Ty) and (self.k, self.a, self.n) == (o.k, o.a, o.n)

    def __hash__(self):
        return hash((self.k, self.n))


_ints = {'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True), 'unsigned long': (64, False),
         'long long': (64, True), 'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False),
         'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'size_t': (64, False), 'std::size_t': (64, False),
         'int32_t': (32, True), 'uint32_t': (32, False), 'int16_t': (16, True), 'uint16_t': (16, False), 'uint8_t': (8, False), 'int64_t': (64, True), 'uint64_t': (64, False),
         'ptrdiff_t': (64, True), 'difference_type': (64, True), 'size_type': (64, False), 'streamsize': (64, True), 'std::streamsize': (64, True)}
_cache = {}


def parse_type(s):
    t = _cache.get(s)
    if t is None:
        t = _parse(s)
        _cache[s] = t
    return t


def _split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def _parse(s):
    s = s.strip()
    s = re.sub(r'\b(class|struct|enum|typename)\s+', '', s)
    if s.endswith('&&'):
        return Ty('ref', _parse(s[:-2]))
    if s.endswith('&'):
        return Ty('ref', _parse(s[:-1]))
    m = re.match(r'^(.*\S)\s*\[(\d+)\]$', s)
    if m:
        return Ty('arr', _parse(m.group(1)), int(m.group(2)))
    s2 = re.sub(r'\*\s*(const|__restrict)\b', '*', s).strip()
    if s2.endswith('*'):
        return Ty('ptr', _parse(s2[:-1]))
    s = s2
    if '<' not in s:
        s = re.sub(r'\b(const|volatile)\b', '', s).strip()
    else:
        s = re.sub(r'^(const|volatile)\s+', '', s)
        s = re.sub(r'\s+(const|volatile)$', '', s)
    if s in _ints:
        b, g = _ints[s]
        return Ty('int', s, bits=b, signed=g)
    if s in ('double', 'float', 'long double'):
        return Ty('real', 'float' if s == 'float' else 'double')
    if s == 'bool' or s == '_Bool':
        return Ty('bool')
    if s == 'void':
        return Ty('void')
    m = re.match(r'^(?:std::)?vector<(.*)>$', s)
    if m:
        return Ty('vec', _parse(_split_args(m.group(1))[0]))
    m = re.match(r'^(?:std::)?initializer_list<(.*)>$', s)
    if m:
        return Ty('vec', _parse(m.group(1)))
    if re.match(r'^(?:__gnu_cxx::)?__normal_iterator<', s):
        return Ty('iter')
    if re.search(r'vector<.*>::(const_)?iterator$', s) or s in ('iterator', 'const_iterator'):
        return Ty('iter')
    if re.match(r'^(?:std::)?(?:__cxx11::)?(?:basic_)?string(<.*>)?$', s):
        return Ty('str')
    m = re.match(r'^(?:std::)?(?:__cxx11::)?(?:basic_)?(ofstream|ifstream|fstream|stringstream|ostream|istream|ostringstream|istringstream|ios)(<.*>)?$', s)
    if m:
        return Ty('stream', m.group(1))
    if '(' in s:
        return Ty('fn', s)
    if re.match(r'^[A-Za-z_][\w:]*$', s):
        return Ty('rec', s.lstrip(':'))
    return Ty('other', s)


REAL = Ty('real', 'double')
INT = Ty('int', 'int', bits=32)
BOOL = Ty('bool')

# ------------------------------------------------------------------ scalar helpers
I = z3.IntVal
R = z3.RealVal


def as_int(t):
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return None


def as_num(t):
    from fractions import Fraction
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def same(a, b):
    return a.eq(b)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return z3.Not(c)
    return z3.If(c, a, b)


def simp(t):
    return z3.simplify(t, som=True, mul_to_power=False)


def iadd(a, b):
    x, y = as_int(a), as_int(b)
    if x is not None and y is not None:
        return I(x + y)
    if x == 0:
        return b
    if y == 0:
        return a
    return simp(a + b)


def isub(a, b):
    x, y = as_int(a), as_int(b)
    if x is not None and y is not None:
        return I(x - y)
    if y == 0:
        return a
    return simp(a - b)


def imul(a, b):
    x, y = as_int(a), as_int(b)
    if x is not None and y is not None:
        return I(x * y)
    return simp(a * b)


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    if not l:
        return z3.BoolVal(True)
    if len(l) == 1:
        return l[0]
    return z3.And(*l)


# ------------------------------------------------------------------ aggregates
class Struct:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def with_(self, name, v):
        f = dict(self.f)
        f[name] = v
        return Struct(self.cls, f)

    def __repr__(self):
        return '%s%r' % (self.cls, self.f)


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def fld(self, n):
        return LV(self.root, self.path + (('f', n),))

    def idx(self, i):
        return LV(self.root, self.path + (('i', i),))

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, ''.join('.' + str(b) if a == 'f' else '[%s]' % b for a, b in self.path))

    def same(self, o):
        if self.root != o.root or len(self.path) != len(o.path):
            return False
        for (k, a), (l, b) in zip(self.path, o.path):
            if k != l:
                return False
            if k == 'f' and a != b:
                return False
            if k == 'i' and not a.eq(b):
                return False
        return True


class Ptr:
    """pointer: lv is None for null; off is None for a pointer to a single object, else an element
    offset into the sequence lv"""
    __slots__ = ('lv', 'off')

    def __init__(self, lv, off=None):
        self.lv, self.off = lv, off

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.lv, self.off)

    def same(self, o):
        if (self.lv is None) != (o.lv is None):
            return False
        if self.lv is None:
            return True
        if not self.lv.same(o.lv):
            return False
        if (self.off is None) != (o.off is None):
            return False
        return self.off is None or self.off.eq(o.off)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Iter:
    __slots__ = ('lv', 'i')

    def __init__(self, lv, i):
        self.lv, self.i = lv, i


class Opaque:
    """a value we know nothing about and may only be moved around"""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why


class Str:
    """string: list of pieces, each a python str or ('num', kind, term) or ('rep', n, fn)"""
    __slots__ = ('p',)

    def __init__(self, p=()):
        self.p = tuple(p)


class FnRef:
    __slots__ = ('name', 'mangled')

    def __init__(self, name, mangled=None):
        self.name, self.mangled = name, mangled


# ------------------------------------------------------------------ sequences
class Vec:
    """immutable functional sequence"""
    ety = None

    def len(self):
        raise NotImplementedError

    def get(self, i, ctx):
        raise NotImplementedError


class Lit(Vec):
    def __init__(self, ety, items):
        self.ety, self.items = ety, tuple(items)

    def len(self):
        return I(len(self.items))

    def get(self, i, ctx):
        c = as_int(i)
        if c is not None:
            if 0 <= c < len(self.items):
                return self.items[c]
            return ctx.havoc(self.ety, 'oob')
        if not self.items:
            return ctx.havoc(self.ety, 'oob')
        r = self.items[-1]
        for k in range(len(self.items) - 2, -1, -1):
            r = ctx.merge_val(i == k, self.items[k], r)
        return r


class Base(Vec):
    """symbolic sequence: element function given by getter(i)"""

    def __init__(self, ety, n, getter, tag=None):
        self.ety, self.n, self.getter, self.tag = ety, n, getter, tag

    def len(self):
        return self.n

    def get(self, i, ctx):
        if not isinstance(i, z3.ExprRef) or '_nomemo' in self.__dict__:
            return self.getter(i)
        m = self.__dict__.setdefault('_memo', {})
        r = m.get(i.get_id())
        if r is None:
            r = m[i.get_id()] = (i, self.getter(i))
        return r[1]


class Fill(Vec):
    """n copies of a value"""

    def __init__(self, ety, n, val):
        self.ety, self.n, self.val = ety, n, val

    def len(self):
        return self.n

    def get(self, i, ctx):
        return self.val


class Push(Vec):
    """prev ++ items"""

    def __init__(self, ety, prev, items):
        if isinstance(prev, Push):
            items = prev.items + tuple(items)
            prev = prev.prev
        self.ety, self.prev, self.items = ety, prev, tuple(items)
        self._len = iadd(prev.len(), I(len(self.items)))

    def len(self):
        return self._len

    def get(self, i, ctx):
        n0 = self.prev.len()
        d = isub(i, n0)
        c = as_int(d)
        if c is not None:
            if 0 <= c < len(self.items):
                return self.items[c]
            if c < 0:
                return self.prev.get(i, ctx)
            return ctx.havoc(self.ety, 'oob')
        if ctx.provable(i < n0):
            return self.prev.get(i, ctx)
        r = None
        for k in range(len(self.items) - 1, -1, -1):
            r = self.items[k] if r is None else ctx.merge_val(d == k, self.items[k], r)
        if ctx.provable(i >= n0):
            return r
        return ctx.merge_val(i < n0, self.prev.get(i, ctx), r)


class Store(Vec):
    def __init__(self, ety, prev, i, val):
        self.ety, self.prev, self.i, self.val = ety, prev, i, val

    def len(self):
        return self.prev.len()

    def get(self, i, ctx):
        d = as_int(isub(i, self.i))
        if d == 0:
            return self.val
        if d is not None:
            return self.prev.get(i, ctx)
        if ctx.provable(i == self.i):
            return self.val
        if ctx.provable(i != self.i):
            return self.prev.get(i, ctx)
        return ctx.merge_val(i == self.i, self.val, self.prev.get(i, ctx))


class VIte(Vec):
    def __init__(self, ety, c, a, b):
        self.ety, self.c, self.a, self.b = ety, c, a, b

    def len(self):
        return ite(self.c, self.a.len(), self.b.len())

    def get(self, i, ctx):
        return ctx.merge_val(self.c, self.a.get(i, ctx), self.b.get(i, ctx))


class App(Vec):
    """prev ++ [fn(t) | t in 0..n)"""

    def __init__(self, ety, prev, n, fn, info=None):
        self.ety, self.prev, self.n, self.fn, self.info = ety, prev, n, fn, info
        self._len = iadd(prev.len(), n)

    def len(self):
        return self._len

    def get(self, i, ctx):
        n0 = self.prev.len()
        if as_int(n0) == 0 and isinstance(self.prev, Lit):
            return self.fn(i)
        if ctx.provable(i < n0):
            return self.prev.get(i, ctx)
        r = self.fn(isub(i, n0))
        if ctx.provable(i >= n0):
            return r
        return ctx.merge_val(i < n0, self.prev.get(i, ctx), r)


class Map(Vec):
    """prev with the elements i satisfying cond(i) replaced by fn(i)"""

    def __init__(self, ety, prev, cond, fn):
        self.ety, self.prev, self.cond, self.fn = ety, prev, cond, fn

    def len(self):
        return self.prev.len()

    def get(self, i, ctx):
        c = self.cond(i)
        if z3.is_true(c) or ctx.provable(c):
            return self.fn(i)
        if z3.is_false(c) or ctx.provable(z3.Not(c)):
            return self.prev.get(i, ctx)
        return ctx.merge_val(c, self.fn(i), self.prev.get(i, ctx))


class Slice(Vec):
    """n elements of prev from position a"""

    def __init__(self, ety, prev, a, n):
        self.ety, self.prev, self.a, self.n = ety, prev, a, n

    def len(self):
        return self.n

    def get(self, i, ctx):
        return self.prev.get(iadd(i, self.a), ctx)


class Ins(Vec):
    """prev with one value inserted before position p"""

    def __init__(self, ety, prev, p, val):
        self.ety, self.prev, self.p, self.val = ety, prev, p, val

    def len(self):
        return iadd(self.prev.len(), I(1))

    def get(self, i, ctx):
        if ctx.provable(i < self.p):
            return self.prev.get(i, ctx)
        if ctx.provable(i > self.p):
            return self.prev.get(isub(i, I(1)), ctx)
        if ctx.provable(i == self.p):
            return self.val
        return ctx.merge_val(i < self.p, self.prev.get(i, ctx),
                             ctx.merge_val(i == self.p, self.val, self.prev.get(isub(i, I(1)), ctx)))


def poly_divmod(d, L, ctx):
    """d = q*L + r with 0 <= r < L, found syntactically when possible"""
    cL, cd = as_int(L), as_int(d)
    if cL == 1:
        return d, I(0)
    if cL and cd is not None:
        return I(cd // cL), I(cd % cL)
    d = simp(d)
    terms = d.children() if z3.is_add(d) else [d]
    Lk = [simp(L)]
    q, r = I(0), I(0)
    for t in terms:
        x = _tdiv(t, L)
        if x is not None:
            q = iadd(q, x)
        else:
            r = iadd(r, t)
    if as_int(r) == 0 or ctx.provable(z3.And(r >= 0, r < L)):
        return q, r
    if cL:
        c = as_int(r)
        if c is not None:
            return iadd(q, I(c // cL)), I(c % cL)
    return d / L, d % L


def _factors(t):
    if z3.is_mul(t):
        out = []
        for c in t.children():
            out += _factors(c)
        return out
    return [t]


def _tdiv(t, L):
    """t / L for a monomial t divisible by the monomial L"""
    if z3.is_add(L):
        # polynomial divisor: only exact multiples  t is a single monomial -> no
        return None
    fl, ft = _factors(simp(L)), _factors(t)
    cl, ct = 1, 1
    sl, sf = [], []
    for f in fl:
        n = as_int(f)
        if n is not None:
            cl *= n
        else:
            sl.append(f)
    for f in ft:
        n = as_int(f)
        if n is not None:
            ct *= n
        else:
            sf.append(f)
    if cl == 0 or ct % cl:
        return None
    for f in sl:
        for j, g in enumerate(sf):
            if g.eq(f):
                sf.pop(j)
                break
        else:
            return None
    r = I(ct // cl)
    for f in sf:
        r = imul(r, f)
    return r


class Comp(Vec):
    """prev ++ concat(segs(t) for t in 0..n)   segs(t): list of
       ('items', [values]) | ('if', cond, segs, segs) | ('comp', n, fn)"""

    def __init__(self, ety, prev, n, segs, length):
        self.ety, self.prev, self.n, self.segs = ety, prev, n, segs
        self._len = length
        self._memo = {}

    def len(self):
        return self._len

    def at(self, t):
        k = t.get_id()
        r = self._memo.get(k)
        if r is None:
            r = (t, self.segs(t))
            self._memo[k] = r
        return r[1]

    def get(self, i, ctx):
        n0 = self.prev.len()
        if not (isinstance(self.prev, Lit) and not self.prev.items):
            if ctx.provable(i < n0):
                return self.prev.get(i, ctx)
            if not ctx.provable(i >= n0):
                return ctx.merge_val(i < n0, self.prev.get(i, ctx), self._nth(isub(i, n0), ctx))
        return self._nth(isub(i, n0), ctx)

    def _nth(self, d, ctx):
        return seg_family_get(self.ety, self.n, self.at, d, ctx)


def seglen(segs):
    r = I(0)
    for s in segs:
        if s[0] == 'items':
            r = iadd(r, I(len(s[1])))
        elif s[0] == 'if':
            r = iadd(r, ite(s[1], seglen(s[2]), seglen(s[3])))
        else:
            L = seglen(s[2](z3.Int('t!len')))
            if _mentions(L, 't!len'):
                raise Unsupported('length of a ragged nested sequence')
            r = iadd(r, imul(s[1], L))
    return r


def _mentions(t, name):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == name:
            return True
        st.extend(x.children())
    return False


def seg_family_get(ety, n, at, d, ctx):
    t = z3.Int('t!len')
    segs = at(t)
    L = seglen(segs)
    if _mentions(L, 't!len'):
        raise Unsupported('indexed access into a ragged sequence')
    q, r = poly_divmod(d, L, ctx)
    return segs_get(ety, at(q), r, ctx)


def segs_get(ety, segs, r, ctx):
    off = I(0)
    res = None
    for s in segs:
        L = seglen([s])
        inside = z3.And(r >= off, r < iadd(off, L))
        last = s is segs[-1]
        c = as_int(r)
        o, l = as_int(off), as_int(L)
        if c is not None and o is not None and l is not None:
            hit = o <= c < o + l
        elif len(segs) == 1 or ctx.provable(inside):
            hit = True
        elif ctx.provable(z3.Not(inside)):
            hit = False
        else:
            hit = None
        if hit is not False:
            d = isub(r, off)
            if s[0] == 'items':
                v = Lit(ety, s[1]).get(d, ctx)
            elif s[0] == 'if':
                v = ctx.merge_val(s[1], segs_get(ety, s[2], d, ctx), segs_get(ety, s[3], d, ctx))
            else:
                v = seg_family_get(ety, s[1], s[2], d, ctx)
            if hit is True:
                return v if res is None else _chain(res, v, ctx)
            res = (res or []) + [(inside, v)]
        off = iadd(off, L)
    if res is None:
        return ctx.havoc(ety, 'oob')
    return _chain(res[:-1], res[-1][1], ctx)


def _chain(conds, v, ctx):
    for c, x in reversed(conds):
        v = ctx.merge_val(c, x, v)
    return v


# ------------------------------------------------------------------ substitution
def sub_term(t, pairs):
    return z3.substitute(t, *pairs)


_jctr = itertools.count()


def _fnsub(fn, pairs, sub):
    """lift substitution under a function of one Int argument"""
    memo = {}

    def g(i):
        if 'b' not in memo:
            j = z3.Int('j!%d' % next(_jctr))
            memo['b'] = (j, sub(fn(j), pairs))
        c = as_int(i)
        j, body = memo['b']
        return sub(body, [(j, i)])
    return g


def sub_val(v, pairs):
    if not pairs:
        return v
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, Struct):
        return Struct(v.cls, {k: sub_val(x, pairs) for k, x in v.f.items()})
    if isinstance(v, Lit):
        return Lit(v.ety, [sub_val(x, pairs) for x in v.items])
    if isinstance(v, Push):
        r = Push.__new__(Push)
        r.ety, r.prev, r.items, r._len = v.ety, sub_val(v.prev, pairs), tuple(sub_val(x, pairs) for x in v.items), sub_val(v._len, pairs)
        return r
    if isinstance(v, Fill):
        return Fill(v.ety, sub_val(v.n, pairs), sub_val(v.val, pairs))
    if isinstance(v, Base):
        return Base(v.ety, sub_val(v.n, pairs), _fnsub(v.getter, pairs, sub_val), v.tag)
    if isinstance(v, Store):
        return Store(v.ety, sub_val(v.prev, pairs), sub_val(v.i, pairs), sub_val(v.val, pairs))
    if isinstance(v, VIte):
        return VIte(v.ety, sub_val(v.c, pairs), sub_val(v.a, pairs), sub_val(v.b, pairs))
    if isinstance(v, App):
        return App(v.ety, sub_val(v.prev, pairs), sub_val(v.n, pairs), _fnsub(v.fn, pairs, sub_val), None)
    if isinstance(v, Map):
        return Map(v.ety, sub_val(v.prev, pairs), _fnsub(v.cond, pairs, sub_val), _fnsub(v.fn, pairs, sub_val))
    if isinstance(v, Slice):
        return Slice(v.ety, sub_val(v.prev, pairs), sub_val(v.a, pairs), sub_val(v.n, pairs))
    if isinstance(v, Ins):
        return Ins(v.ety, sub_val(v.prev, pairs), sub_val(v.p, pairs), sub_val(v.val, pairs))
    if isinstance(v, Comp):
        return Comp(v.ety, sub_val(v.prev, pairs), sub_val(v.n, pairs), _fnsub(v.at, pairs, sub_segs), sub_val(v._len, pairs))
    if isinstance(v, Fam):
        return Fam(v.ety, sub_val(v.prev, pairs), [(sub_val(n, pairs), [sub_val(x, pairs) for x in [b]][0], sub_val(s, pairs)) for n, b, s in v.dims], _fnsubn(v.fn, len(v.dims), pairs))
    if isinstance(v, LV):
        return LV(v.root, tuple((k, x if k == 'f' else sub_val(x, pairs)) for k, x in v.path))
    if isinstance(v, Ptr):
        return Ptr(sub_val(v.lv, pairs) if v.lv is not None else None, sub_val(v.off, pairs) if v.off is not None else None)
    if isinstance(v, PIte):
        return PIte(sub_val(v.c, pairs), sub_val(v.a, pairs), sub_val(v.b, pairs))
    if isinstance(v, Iter):
        return Iter(sub_val(v.lv, pairs), sub_val(v.i, pairs))
    if isinstance(v, Str):
        return Str(tuple(tuple(sub_val(y, pairs) for y in x) if isinstance(x, tuple) else x for x in v.p))
    if isinstance(v, (tuple, list)):
        return type(v)(sub_val(x, pairs) for x in v)
    if v is None or isinstance(v, (str, int, Opaque, FnRef)):
        return v
    if hasattr(v, 'subst'):
        return v.subst(pairs)
    raise Unsupported('substitution in %s' % type(v).__name__)


def sub_segs(segs, pairs):
    out = []
    for s in segs:
        if s[0] == 'items':
            out.append(('items', [sub_val(x, pairs) for x in s[1]]))
        elif s[0] == 'if':
            out.append(('if', sub_val(s[1], pairs), sub_segs(s[2], pairs), sub_segs(s[3], pairs)))
        else:
            out.append(('comp', sub_val(s[1], pairs), _fnsub(s[2], pairs, sub_segs)))
    return out


def _fnsubn(fn, n, pairs):
    memo = {}

    def g(*a):
        if 'b' not in memo:
            js = [z3.Int('j!%d' % next(_jctr)) for _ in range(n)]
            memo['b'] = (js, sub_val(fn(*js), pairs))
        js, body = memo['b']
        return sub_val(body, list(zip(js, a)))
    return g


class Fam(Vec):
    """prev overwritten at  base + sum(stride_d * t_d), 0 <= t_d < n_d, with fn(t..)
    dims: [(n, base, stride)] outermost first (base summed), strides positive, mixed radix disjoint"""

    def __init__(self, ety, prev, dims, fn):
        self.ety, self.prev, self.dims, self.fn = ety, prev, dims, fn

    def len(self):
        return self.prev.len()

    def solve(self, i, ctx):
        d = i
        for n, b, s in self.dims:
            d = isub(d, b)
        ts, conds = [], []
        for k, (n, b, s) in enumerate(self.dims):
            if as_int(s) == 1:
                t = d
                d = I(0)
            else:
                if ctx.provable(d >= 0):
                    pass
                t, d = poly_divmod(d, s, ctx)
            ts.append(t)
            conds.append(z3.And(t >= 0, t < n))
        if as_int(d) != 0:
            conds.append(d == 0)
        return ts, conj(conds)

    def get(self, i, ctx):
        ts, c = self.solve(i, ctx)
        c = z3.simplify(c)
        if z3.is_true(c) or ctx.provable(c):
            return self.fn(*ts)
        if z3.is_false(c) or ctx.provable(z3.Not(c)):
            return self.prev.get(i, ctx)
        return ctx.merge_val(c, self.fn(*ts), self.prev.get(i, ctx))
