"""Bounds of integer terms by propagation through the hypotheses: linear facts bound their terms one at a time, products
are bounded from the bounds of their factors. Sound and incomplete; used for machine-range obligations."""
import z3
from .symex import RANGES

INF = float('inf')


def _mul(a, b):
    def m(x, y):
        return 0 if x == 0 or y == 0 else x * y
    p = [m(x, y) for x in a for y in b]
    return min(p), max(p)


def _add(a, b):
    return a[0] + b[0], a[1] + b[1]


PARSED = {}


def parse(t):
    r = PARSED.get(t.get_id())
    if r is None:
        if len(PARSED) > 20000:
            PARSED.clear()
        r = PARSED[t.get_id()] = (Facts(t).facts, t)
    return r[0]


class Facts:
    lin = {}

    def __init__(self, t=None):
        self.facts = []                 # ({key: (coefficient, atoms)}, constant): the sum is not negative
        if t is not None:
            self.atom(t, False)

    def atom(self, t, neg):
        if not z3.is_app(t):
            return
        k = t.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.atom(t.arg(0), not neg)
        if k == (z3.Z3_OP_OR if neg else z3.Z3_OP_AND):
            for c in t.children():
                self.atom(c, neg)
            return
        if k == z3.Z3_OP_IMPLIES and neg:
            self.atom(t.arg(0), False)
            self.atom(t.arg(1), True)
            return
        if t.num_args() != 2 or not z3.is_arith(t.arg(0)) or not t.arg(0).is_int():
            return
        x, y = t.arg(0), t.arg(1)
        if neg:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE, z3.Z3_OP_DISTINCT: z3.Z3_OP_EQ}.get(k)
        if k == z3.Z3_OP_LE:
            self.ge(y, x, 0)
        elif k == z3.Z3_OP_LT:
            self.ge(y, x, -1)
        elif k == z3.Z3_OP_GE:
            self.ge(x, y, 0)
        elif k == z3.Z3_OP_GT:
            self.ge(x, y, -1)
        elif k == z3.Z3_OP_EQ:
            self.ge(x, y, 0)
            self.ge(y, x, 0)

    def ge(self, x, y, d):
        """x - y + d >= 0"""
        a, b = self.linear(x), self.linear(y)
        m = dict(a[0])
        for i, (c, t) in b[0].items():
            c2 = m[i][0] - c if i in m else -c
            if c2 == 0:
                m.pop(i, None)
            else:
                m[i] = (c2, t)
        if m and len(m) <= 6:
            self.facts.append((m, a[1] - b[1] + d))

    def linear(self, t):
        """polynomial: {monomial key: (coefficient, [atoms])}, constant"""
        if len(self.lin) > 50000:
            self.lin.clear()
        r = self.lin.get(t.get_id())
        if r is not None:
            return r[0]
        r = self.linear_(t)
        self.lin[t.get_id()] = (r, t)
        return r

    def linear_(self, t):
        if z3.is_int_value(t):
            return {}, t.as_long()
        if z3.is_app(t):
            k = t.decl().kind()
            ch = t.children()
            if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB or k == z3.Z3_OP_UMINUS:
                m, c0 = {}, 0
                for j, x in enumerate(ch):
                    s = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and j) else 1
                    a, d = self.linear(x)
                    c0 += s * d
                    for i, (c, u) in a.items():
                        c2 = (m[i][0] if i in m else 0) + s * c
                        if c2 == 0:
                            m.pop(i, None)
                        else:
                            m[i] = (c2, u)
                return m, c0
            if k == z3.Z3_OP_MUL:
                r = {(): (1, [])}
                for x in ch:
                    a, d = self.linear(x)
                    b = dict(a)
                    if d:
                        b[()] = (d, [])
                    if len(r) * len(b) > 64:
                        return {(t.get_id(),): (1, [t])}, 0
                    q = {}
                    for i, (c, u) in r.items():
                        for i2, (c2, u2) in b.items():
                            if len(u) + len(u2) > 5:
                                return {(t.get_id(),): (1, [t])}, 0
                            us = sorted(u + u2, key=lambda x: x.get_id())
                            key = tuple(x.get_id() for x in us)
                            c3 = c * c2 + (q[key][0] if key in q else 0)
                            if c3 == 0:
                                q.pop(key, None)
                            else:
                                q[key] = (c3, us)
                    r = q
                c0 = r.pop((), (0, None))[0]
                return r, c0
        return {(t.get_id(),): (1, [t])}, 0


class Interval:
    def __init__(self, pc):
        self.facts = [f for t in pc for f in parse(t)]
        self.b = {}
        self.busy = set()
        for _ in range(8):
            if not self.round():
                break

    def round(self):
        changed = False
        for m, c in self.facts:
            bs = {i: _mul((k, k), self.leaf(u)) for i, (k, u) in m.items()}
            inf = [i for i in bs if bs[i][1] == INF]
            if len(inf) > 1:
                continue
            tot = sum(x[1] for i, x in bs.items() if i not in inf) + c
            for i in (inf or m):
                k = m[i][0]
                o = tot - (0 if inf else bs[i][1])
                if not -INF < o < INF:
                    continue
                lo, hi = self.leaf(m[i][1])
                # k*t + o >= 0
                if k > 0 and -(o // k) > lo:
                    self.b[i] = (-(o // k), hi)
                    changed = True
                elif k < 0 and o // -k < hi:
                    self.b[i] = (lo, o // -k)
                    changed = True
        return changed

    def leaf(self, t):
        i = tuple(x.get_id() for x in t)
        lo, hi = self.b.get(i, (-INF, INF))
        if len(t) == 1:
            if i in self.busy:
                return lo, hi
            self.busy.add(i)
            a = self.shape(t[0])
            self.busy.discard(i)
        else:
            a = 1, 1
            j = 0
            while j < len(t):
                n = 1
                while j + n < len(t) and t[j + n].eq(t[j]):
                    n += 1
                x = self.leaf([t[j]])
                b = x
                for _ in range(n - 1):
                    b = _mul(b, x)
                if n % 2 == 0:
                    b = max(0, b[0]), b[1]
                a = _mul(a, b)
                j += n
        return max(lo, a[0]), min(hi, a[1])

    def bounds(self, t):
        m, c = Facts().linear(t)
        r = (c, c)
        for k, u in m.values():
            r = _add(r, _mul((k, k), self.leaf(u)))
        # several of its terms may be bounded together by one fact
        for g, d in self.facts if len(m) > 1 else ():
            for s in (1, -1):
                i0 = next((i for i in m if i in g), None)
                if i0 is None or g[i0][0] * s != m[i0][0]:
                    continue
                # s*fact + rest = t
                o = (c - s * d, c - s * d)
                for i in set(m) | set(g):
                    k = (m[i][0] if i in m else 0) - s * (g[i][0] if i in g else 0)
                    if k:
                        o = _add(o, _mul((k, k), self.leaf((m.get(i) or g[i])[1])))
                r = (max(r[0], o[0]), r[1]) if s > 0 else (r[0], min(r[1], o[1]))
        return r

    def shape(self, t):
        if not z3.is_app(t):
            return -INF, INF
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ITE:
            a, b = self.part(ch[1]), self.part(ch[2])
            return min(a[0], b[0]), max(a[1], b[1])
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            a, d = self.part(ch[0]), ch[1].as_long()
            return (a[0] // d if a[0] > -INF else a[0]), (a[1] // d if a[1] < INF else a[1])
        if k == z3.Z3_OP_MOD:
            d = self.part(ch[1])
            if d[0] > 0:
                return 0, d[1] - 1
        if k == z3.Z3_OP_UNINTERPRETED:
            r = RANGES.get(t.decl().name())
            if r and len(r) == 2:
                return (r[0] if r[0] is not None else -INF), (r[1] if r[1] is not None else INF)
        return -INF, INF

    def part(self, t):
        m, c = Facts().linear(t)
        r = (c, c)
        for k, u in m.values():
            r = _add(r, _mul((k, k), self.leaf(u)))
        return r


def inside(pc, goal):
    """goal: lo < v and v < hi"""
    if not (z3.is_and(goal) and goal.num_args() == 2):
        return False
    a, b = goal.children()
    if not (z3.is_gt(a) and z3.is_lt(b) and a.arg(0).eq(b.arg(0)) and a.arg(0).is_int() and z3.is_int_value(a.arg(1)) and z3.is_int_value(b.arg(1))):
        return False
    lo, hi = Interval([t for t in pc if not z3.is_quantifier(t)]).bounds(a.arg(0))
    return lo > a.arg(1).as_long() and hi < b.arg(1).as_long()
