"""Exact normaliser for real-arithmetic identities.

Terms are turned into rational functions over atoms (variables, uninterpreted applications, sqrt, sin,
cos), with the rewrite rules sqrt(t)^2 -> t, sin^2 -> 1-cos^2, sin/cos of a doubled angle, and the
polynomial equalities given as hypotheses used as rewrite rules.  An equality a == b is accepted when the
numerator of a-b reduces to the zero polynomial.  Everything is exact rational arithmetic."""
from fractions import Fraction
import math
import z3

ONE = ()


class Blowup(Exception):
    pass


LIMIT = 60000


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    if len(a) * len(b) > LIMIT * 10:
        raise Blowup()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > LIMIT:
        raise Blowup()
    return r


def pconst(c):
    c = Fraction(c)
    return {ONE: c} if c != 0 else {}


def freeze(p):
    return tuple(sorted(p.items()))


def isconst(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


class RF:
    """numerator polynomial over a product of denominator factors {frozen poly: exponent}"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}
        if not n:
            self.d = {}

    def key(self):
        return (freeze(self.n), tuple(sorted(self.d.items())))


def radd(a, b, s=1):
    if not b.n:
        return a
    if a.d == b.d:
        return RF(padd(a.n, b.n, s), a.d)
    l = dict(a.d)
    for k, e in b.d.items():
        l[k] = max(l.get(k, 0), e)

    def lift(x):
        n = x.n
        for k, e in l.items():
            for _ in range(e - x.d.get(k, 0)):
                n = pmul(n, dict(k))
        return n
    return RF(padd(lift(a), lift(b), s), l)


def rmul(a, b):
    d = dict(a.d)
    for k, e in b.d.items():
        d[k] = d.get(k, 0) + e
    an, bn = a.n, b.n
    # cancel syntactically equal factors
    for src in ('a', 'b'):
        n = an if src == 'a' else bn
        if d and n and isconst(n) is None:
            f, c = monic(n)
            fk = freeze(f)
            if d.get(fk):
                d[fk] -= 1
                if not d[fk]:
                    del d[fk]
                n = pconst(c)
                if src == 'a':
                    an = n
                else:
                    bn = n
    return RF(pmul(an, bn), d)


def monic(p):
    lead = max(p)
    c = p[lead]
    if c == 1:
        return p, c
    return {m: v / c for m, v in p.items()}, c


def rinv(a):
    if not a.n:
        raise ZeroDivisionError
    n = {ONE: Fraction(1)}
    for k, e in a.d.items():
        for _ in range(e):
            n = pmul(n, dict(k))
    c = isconst(a.n)
    if c is not None:
        return RF({m: v / c for m, v in n.items()})
    # split monomial content
    d = {}
    f, c = monic(a.n)
    common = None
    for m in f:
        dm = dict(m)
        common = dm if common is None else {k: min(e, dm[k]) for k, e in common.items() if k in dm}
    if common:
        g = {}
        for m, v in f.items():
            dm = dict(m)
            for k, e in common.items():
                dm[k] -= e
                if not dm[k]:
                    del dm[k]
            g[tuple(sorted(dm.items()))] = v
        for k, e in common.items():
            d[freeze({((k, 1),): Fraction(1)})] = e
        f = g
    if isconst(f) is None:
        fk = freeze(f)
        d[fk] = d.get(fk, 0) + 1
    return RF({m: v / c for m, v in n.items()}, d)


class Normaliser:
    def __init__(self):
        self.atoms = {}      # key -> id
        self.info = []       # id -> (kind, payload)
        self.cache = {}
        self.trigargs = {}
        self.rules = {}      # leading monomial -> poly rest    (hypotheses)
        self.keep = []
        self.divs = []
        self.budget = 0

    def atom(self, key, info):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.info)
            self.atoms[key] = i
            self.info.append(info)
        return i

    def avar(self, i):
        return RF({((i, 1),): Fraction(1)})

    # ---- conversion
    def rf(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self._rf(t)
            self.cache[k] = r
            self.keep.append(t)
        return r

    def _rf(self, t):
        if z3.is_rational_value(t):
            return RF(pconst(Fraction(t.numerator_as_long(), t.denominator_as_long())))
        if z3.is_int_value(t):
            return RF(pconst(t.as_long()))
        if z3.is_app(t):
            k = t.decl().kind()
            ch = t.children()
            if k == z3.Z3_OP_ADD:
                r = self.rf(ch[0])
                for c in ch[1:]:
                    r = radd(r, self.rf(c))
                return self.reduce(r)
            if k == z3.Z3_OP_SUB:
                r = self.rf(ch[0])
                for c in ch[1:]:
                    r = radd(r, self.rf(c), -1)
                return self.reduce(r)
            if k == z3.Z3_OP_UMINUS:
                return rmul(RF(pconst(-1)), self.rf(ch[0]))
            if k == z3.Z3_OP_MUL:
                r = self.rf(ch[0])
                for c in ch[1:]:
                    r = rmul(r, self.rf(c))
                return self.reduce(r)
            if k == z3.Z3_OP_DIV:
                a, b = self.rf(ch[0]), self.rf(ch[1])
                if not b.n:
                    return self.avar(self.atom(('t', t.get_id()), ('term', t)))
                self.divs.append(ch[1])
                return self.reduce(rmul(a, rinv(b)))
            if k == z3.Z3_OP_TO_REAL:
                return self.rf(ch[0])
            if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 8:
                r = RF(pconst(1))
                for _ in range(ch[1].as_long()):
                    r = rmul(r, self.rf(ch[0]))
                return self.reduce(r)
            if k == z3.Z3_OP_UNINTERPRETED and ch:
                n = t.decl().name()
                if n == 'sqrt':
                    return self.sqrt(self.rf(ch[0]), t)
                if n in ('sin', 'cos'):
                    return self.trig(n, self.rf(ch[0]), t)
                keys = []
                for c in ch:
                    if z3.is_arith(c):
                        keys.append(self.rf(c).key())
                    else:
                        keys.append(('t', c.get_id()))
                        self.keep.append(c)
                return self.avar(self.atom(('u', n, tuple(keys)), ('term', t)))
        self.keep.append(t)
        return self.avar(self.atom(('t', t.get_id()), ('term', t)))

    def sqrt(self, a, t):
        c = isconst(a.n) if not a.d else None
        if c is None and a.d:
            # n/d with n = c*d cancels
            a = self.cancel(a)
            c = isconst(a.n) if not a.d else None
        if c is not None and c >= 0:
            p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if p * p == c.numerator and q * q == c.denominator:
                return RF(pconst(Fraction(p, q)))
        i = self.atom(('sqrt', a.key()), ('sqrt', a, t))
        return self.avar(i)

    def cancel(self, a):
        """reduce n/d when n is a multiple of a denominator factor by a constant"""
        if not a.d:
            return a
        den = {ONE: Fraction(1)}
        for k, e in a.d.items():
            for _ in range(e):
                den = pmul(den, dict(k))
        den = self.reduce(RF(den))
        num = a
        if den.d:
            return a
        num = self.reduce(RF(a.n))
        if num.d or not num.n or not den.n:
            return a
        f1, c1 = monic(num.n)
        f2, c2 = monic(den.n)
        if f1 == f2:
            return RF(pconst(c1 / c2))
        if isconst(den.n) is not None:
            return RF({m: v / den.n[ONE] for m, v in num.n.items()})
        return a

    def trig(self, n, a, t):
        """canonical argument: pi recognised, leading coefficient positive"""
        a = self.pi(a)
        if not a.n:
            return RF(pconst(1 if n == 'cos' else 0))
        if not a.d and len(a.n) == 1:
            (m, c), = a.n.items()
            if m == ((self.piatom(), 1),):
                q = c * 2
                if q.denominator == 1:  # multiple of pi/2
                    s = [0, 1, 0, -1]
                    k = int(q) % 4
                    return RF(pconst(s[k] if n == 'sin' else s[(k + 1) % 4]))
        sign = 1
        lead = max(a.n)
        if a.n[lead] < 0:
            sign = -1
            a = rmul(RF(pconst(-1)), a)
        # periodicity: a - 2*pi*k not handled
        half = RF({m: c / 2 for m, c in a.n.items()}, a.d)
        if half.key() in self.trigargs:
            s = self.avar(self.atom(('sin', half.key()), ('sin', half, t)))
            c = self.avar(self.atom(('cos', half.key()), ('cos', half, t)))
            if n == 'sin':
                r = rmul(RF(pconst(2 * sign)), rmul(s, c))
            else:
                r = radd(rmul(RF(pconst(2)), rmul(c, c)), RF(pconst(-1)))
            return self.reduce(r)
        self.trigargs[a.key()] = a
        i = self.atom((n, a.key()), (n, a, t))
        r = self.avar(i)
        return rmul(RF(pconst(-1)), r) if (sign < 0 and n == 'sin') else r

    def piatom(self):
        return self.atom(('pi',), ('pi',))

    def pi(self, a):
        """replace coefficients within 1e-9 of a small rational multiple of pi by that multiple"""
        n = {}
        chg = False
        pa = self.piatom()
        for m, c in a.n.items():
            hit = None
            if not any(k == pa for k, _ in m):
                x = float(c) / math.pi
                if x != 0:
                    f = Fraction(x).limit_denominator(2880)
                    if f != 0 and abs(x - float(f)) <= 1e-9 * abs(x) and abs(float(c) - float(Fraction(float(c)).limit_denominator(1000))) > 1e-9 * abs(float(c)):
                        hit = f
            if hit is not None:
                mm = mmul(m, ((pa, 1),))
                n[mm] = n.get(mm, 0) + hit
                chg = True
            else:
                n[m] = n.get(m, 0) + c
        return RF(n, a.d) if chg else a

    def prescan(self, terms):
        """register trig arguments, smallest first, so that doubled angles are rewritten"""
        seen = set()
        args = []

        def walk(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            self.keep.append(t)
            for c in t.children():
                walk(c)
            if z3.is_app(t) and t.decl().name() in ('sin', 'cos') and t.num_args() == 1:
                args.append(t.arg(0))
        for t in terms:
            walk(t)

        def size(t):
            try:
                a = self.pi(self.rf(t))
            except (Blowup, ZeroDivisionError):
                return 0
            return sum(abs(float(c)) for c in a.n.values())
        for a in sorted(args, key=size):
            try:
                r = self.pi(self.rf(a))
            except (Blowup, ZeroDivisionError):
                continue
            if r.n:
                if r.n[max(r.n)] < 0:
                    r = rmul(RF(pconst(-1)), r)
                half = RF({m: c / 2 for m, c in r.n.items()}, r.d)
                if half.key() not in self.trigargs:
                    self.trigargs[r.key()] = r
        self.cache.clear()

    # ---- rewriting
    def reduce(self, r):
        n = r.n
        d = r.d
        changed = True
        rounds = 0
        while changed:
            changed = False
            rounds += 1
            if rounds > 200:
                raise Blowup()
            for m in list(n):
                if m not in n:
                    continue
                rep = None
                for (k, e) in m:
                    if e >= 2:
                        inf = self.info[k]
                        if inf[0] == 'sqrt':
                            rep = (((k, 2),), inf[1])
                            break
                        if inf[0] == 'sin':
                            ci = self.atom(('cos', inf[1].key()), ('cos', inf[1], None))
                            rep = (((k, 2),), RF({ONE: Fraction(1), ((ci, 2),): Fraction(-1)}))
                            break
                if rep is None and self.rules:
                    dm = dict(m)
                    for lm, rest in self.rules.items():
                        if all(dm.get(k, 0) >= e for k, e in lm):
                            rep = (lm, rest)
                            break
                if rep is not None:
                    c = n.pop(m)
                    dm = dict(m)
                    for k, e in rep[0]:
                        dm[k] -= e
                        if not dm[k]:
                            del dm[k]
                    t = rmul(RF({tuple(sorted(dm.items())): c}), rep[1])
                    s = radd(RF(n, {}), t)
                    if s.d:
                        d2 = dict(d)
                        for k, e in s.d.items():
                            d2[k] = d2.get(k, 0) + e
                        d = d2
                    n = s.n
                    changed = True
                    if len(n) > LIMIT:
                        raise Blowup()
                    break_outer = s.d
                    if break_outer:
                        break
        return RF(n, d)

    def add_rule(self, p):
        """poly == 0 used as: leading monomial -> rest.  Leading = highest total degree, preferring
        a square of a single atom."""
        if not p or isconst(p) is not None:
            return False

        def rank(m):
            return (sum(e for _, e in m), max(e for _, e in m) if m else 0, m)
        lm = max(p, key=rank)
        c = p[lm]
        rest = {m: -v / c for m, v in p.items() if m != lm}
        # avoid self-referential rules
        dl = dict(lm)
        for m in rest:
            dm = dict(m)
            if all(dm.get(k, 0) >= e for k, e in dl.items()):
                return False
        self.rules[lm] = RF(rest)
        return True

    def zero(self, t):
        r = self.reduce(self.rf(t))
        if not r.n:
            return True
        return False


def prove_equal(a, b, eqs=()):
    """True when a == b follows by normalisation (with equalities eqs: list of (l, r)); the list of
    denominators met is returned for the caller to show non-zero."""
    nz = Normaliser()
    try:
        nz.prescan([a, b] + [x for e in eqs for x in e])
        for l, r in eqs:
            try:
                d = nz.reduce(nz.rf(l - r))
            except (Blowup, ZeroDivisionError):
                continue
            nz.divs.clear()
            nz.add_rule(d.n)
        nz.cache.clear()
        nz.divs.clear()
        ok = nz.zero(a - b)
        return ok, list(nz.divs)
    except (Blowup, ZeroDivisionError):
        return False, []
