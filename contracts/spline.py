from .common import *
CUR = GEO + ['NurbsCurve.cpp']


class Curve:
    """an arbitrary clamped curve in an arbitrary state of its scratch buffers"""

    def __init__(self, c, name, p, n, knots=None):
        self.c, self.p, self.n = c, p, n
        self.lv = c.construct('NurbsCurve')
        s = c.val(self.lv)
        f = dict(s.f)
        for k, ty in (('_knots', 'double'), ('_weights', 'double'), ('_points', 'Point3'), ('_tempPoints', 'Point3'), ('_tempWeights', 'double')):
            f[k] = c.sym('std::vector<%s>' % ty, name + k)
        if knots is not None:
            f['_knots'] = knots
        f['_degree'], f['_iNbPoints'] = p, n
        c.ex.wr(self.lv, Struct(s.cls, f))
        self.kv, self.wv, self.pv = f['_knots'], f['_weights'], f['_points']
        c.assume(And(self.kv.len() == n + p + 1, self.wv.len() == n, self.pv.len() == n, f['_tempPoints'].len() >= p + 1, f['_tempWeights'].len() >= p + 1))
        self.U = lambda i: c.at(self.kv, i)
        self.w = lambda i: c.at(self.wv, i)
        self.P = lambda i: V.of(c.at(self.pv, i))


def any_curve(c, name='q', knots=None, p=None):
    p = c.int('degree', 0) if p is None else p
    n = c.int('points', 1)
    c.assume(And(p < n, n < 2 ** 20))
    return Curve(c, name, p, n, knots)


def in_span(c, q, k, u):
    """k is the span of u in the clamped knots of q (contract of find_knot_span: C15)"""
    p, n, U = q.p, q.n, q.U
    return And(p <= k, k < n, U(k) < U(k + 1), U(k) <= u, Or(u < U(k + 1), And(u == 1, U(k + 1) == 1)))


def span_contract(c, q, k):
    def h(ex, this, args, fn):
        v = ex.rd(args[0])
        if not ex.quiet:
            c.ensure('span looked up in the knots of the curve', c.eq(v, q.kv))
        c.assume(in_span(c, q, k, args[1]))
        return k
    c.ex.handlers[c.fn('NurbsCurve::find_knot_span').mangled] = h
    c.ex.used_contracts.add('NurbsCurve::find_knot_span (the span of the parameter: C15)')


def sorted_at(c, q, *pairs):
    """instances of: the knots do not decrease"""
    for a, b in pairs:
        c.assume(Implies(And(0 <= a, a <= b, b < q.n + q.p + 1), q.U(a) <= q.U(b)))


class DeBoor:
    """the rational B-spline of a curve in span k at u, defined by de Boor's recursion on homogeneous points:
    D(i,0) = (w_i P_i, w_i), D(i,r) = (1-a) D(i-1,r-1) + a D(i,r-1), a = (u-U_i)/(U_{i+p+1-r}-U_i); value D(k,p)"""

    def __init__(self, c, q, k, u, name='D'):
        self.c, self.q, self.k, self.u = c, q, k, u
        Z, Rr = z3.IntSort(), z3.RealSort()
        self.F = [z3.Function(name + x, Z, Z, Rr) for x in 'xyzw']
        self.A = z3.Function(name + '_alpha', Z, Z, Rr)

    def at(self, i, r):
        i, r = [x if is_term(x) else I(x) for x in (i, r)]
        return V(*[f(i, r) for f in self.F[:3]]), self.F[3](i, r)

    def start(self, i):
        q = self.q
        a, b = self.at(i, 0)
        return And(a.eq(q.P(i) * q.w(i)), b == q.w(i))

    def alpha(self, i, r):
        q = self.q
        return (self.u - q.U(i)) / (q.U(i + q.p + 1 - r) - q.U(i))

    def step(self, i, r, al=None):
        al = self.alpha(i, r) if al is None else al
        (x, w), (a, wa), (b, wb) = self.at(i, r), self.at(i - 1, r - 1), self.at(i, r - 1)
        return And(x.eq(a * (1 - al) + b * al), w == wa * (1 - al) + wb * al)


def basis(q, k, u, p):
    """Cox-de Boor basis functions N(i,p)(u), i = k-p..k, on the non-empty span k (all others vanish there)"""
    return basis_on(lambda o: q.U(k + o), u, p)


def basis_on(U, u, p):
    N = {0: z3.RealVal(1)}
    for d in range(1, p + 1):
        M = {}
        for o in range(-d, 1):
            t = z3.RealVal(0)
            if o in N:
                t = t + N[o] * ((u - U(o)) / (U(o + d) - U(o)))
            if o + 1 in N:
                t = t + N[o + 1] * ((U(o + d + 1) - u) / (U(o + d + 1) - U(o + 1)))
            M[o] = t
        N = M
    return N


class Blend:
    """de Boor's recursion on arbitrary values G(i) (a homogeneous coordinate of control points, or of whole lines of
    them) for knots U, degree p, span k, parameter u:  D(i,0)=G(i), D(i,r)=(1-a)D(i-1,r-1)+a D(i,r-1),
    a=(u-U_i)/(U_{i+p+1-r}-U_i), used for k-p+r <= i <= k only; value D(k,p)"""

    def __init__(self, name, U, p, k, u):
        Z = z3.IntSort()
        self.F = z3.Function(name, Z, Z, z3.RealSort())
        self.U, self.p, self.k, self.u = U, p, k, u

    def __call__(self, i, r):
        return self.F(*[x if is_term(x) else I(x) for x in (i, r)])

    def a(self, i, r):
        return (self.u - self.U(i)) / (self.U(i + self.p + 1 - r) - self.U(i))

    def den(self, i, r):
        return self.U(i + self.p + 1 - r) - self.U(i)

    def step(self, i, r):
        a = self.a(i, r)
        return self(i, r) == self(i - 1, r - 1) * (1 - a) + self(i, r - 1) * a


def arbitrary_span(c, tag=''):
    """knots that do not decrease, a degree, a non-empty span of it and a parameter on it (ends included)"""
    U = z3.Function('U' + tag, z3.IntSort(), z3.RealSort())
    p, k, u = c.int('p' + tag, 0), c.int('k' + tag), c.real('u' + tag)
    c.assume(And(U(k) < U(k + 1), U(k) <= u, u <= U(k + 1)))
    return U, p, k, u


def in_order(c, U, *chain):
    for a, b in zip(chain, chain[1:]):
        c.assume(Implies(a <= b, U(a) <= U(b)))


def coxdeboor(c):
    """for every degree: the recursion's value is the sum of the values times Cox-de Boor's basis functions.
    S(q,m) = sum of N(i,q) D(i,p-q) for k-q <= i <= m.  Shown: S(q,k) = S(q-1,k) for 1 <= q <= p, by induction on m
    of  S(q,m) = [m > k-q] S(q-1,m) + [m < k] b(m,q) N(m+1,q-1) D(m,p-q);  so S(p,k) = S(0,k) = D(k,p)."""
    U, p, k, u = arbitrary_span(c)
    D = Blend('D', U, p, k, u)
    N = z3.Function('N', z3.IntSort(), z3.IntSort(), z3.RealSort())
    S = z3.Function('S', z3.IntSort(), z3.IntSort(), z3.RealSort())
    q, m = c.int('q', 1), c.int('m')
    c.assume(And(q <= p, k - q <= m, m <= k))
    left = lambda i, q: (u - U(i)) / (U(i + q) - U(i)) * N(i, q - 1)
    right = lambda i, q: (U(i + q + 1) - u) / (U(i + q + 1) - U(i + 1)) * N(i + 1, q - 1)
    # Cox-de Boor on the span k: the functions that do not vanish there
    c.assume(N(k, I(0)) == 1)
    c.assume(N(m, q) == If(m == k - q, right(m, q), If(m == k, left(m, q), left(m, q) + right(m, q))))
    c.assume(S(q, k - q) == N(k - q, q) * D(k - q, p - q))
    c.assume(Implies(m > k - q, S(q, m) == S(q, m - 1) + N(m, q) * D(m, p - q)))
    c.assume(S(q - 1, k - q + 1) == N(k - q + 1, q - 1) * D(k - q + 1, p - q + 1))
    c.assume(Implies(m > k - q + 1, S(q - 1, m) == S(q - 1, m - 1) + N(m, q - 1) * D(m, p - q + 1)))
    c.assume(Implies(m > k - q, D.step(m, p - q + 1)))          # level p-q+1 <= p at an entry the recursion defines
    claim = lambda m: S(q, m) == If(m > k - q, S(q - 1, m), 0) + If(m < k, right(m, q) * D(m, p - q), 0)
    in_order(c, U, m, k)
    in_order(c, U, m + 1, k)
    in_order(c, U, k + 1, m + q)
    in_order(c, U, k + 1, m + q + 1)
    with c.under(m == k - q):
        c.ensure('first term', claim(m))
    with c.under(m > k - q):
        c.lemma('divisor', U(m + q) > U(m))
        al = z3.Real('factor')
        c.assume(al * (U(m + q) - U(m)) == u - U(m))
        c.lemma('factor', al == (u - U(m)) / (U(m + q) - U(m)))
        c.lemma('what was left over', Implies(m - 1 < k, right(m - 1, q) == (1 - al) * N(m, q - 1)))
        c.lemma('next function', N(m, q) == al * N(m, q - 1) + If(m < k, right(m, q), 0))
        c.lemma('next entry', D(m, p - q + 1) == D(m - 1, p - q) * (1 - al) + D(m, p - q) * al)
        c.assume(claim(m - 1))
        R = If(m < k, right(m, q), 0)
        T = If(m > k - q + 1, S(q - 1, m - 1), 0)
        c.lemma('before', S(q, m - 1) == T + (1 - al) * N(m, q - 1) * D(m - 1, p - q))
        c.lemma('after', S(q - 1, m) == T + N(m, q - 1) * D(m, p - q + 1))
        c.lemma('now', S(q, m) == S(q, m - 1) + (al * N(m, q - 1) + R) * D(m, p - q))
        c.ensure('next term', claim(m))
    with c.under(m == k, claim(m)):
        c.ensure('each level has the same sum', S(q, k) == S(q - 1, k))
    c.assume(S(I(0), k) == N(k, I(0)) * D(k, p))
    c.ensure('the last one is the value', S(I(0), k) == D(k, p))


def boehm_any(c, right):
    """for every degree: Boehm's points and knots describe the same curve.  The new recursion E on the new knots is
    E(i,r) = D(i,r) (i <= j-p+r), D(i-1,r) (i > j), else (1-b) D(i-1,r) + b D(i,r), b=(v-U_i)/(U_{i+p-r}-U_i):
    by induction on the level; at the last level this is the old value."""
    # inserting u then v gives what v then u gives: an identity over arbitrary reals
    names = x0, x1, y0, y1, d0, d1, d2 = z3.Reals('x0 x1 y0 y1 d0 d1 d2')
    u, v = c.real('u'), c.real('v')
    l = lambda s, t, z: s * (1 - z) + t * z
    f = lambda t, a, b: (t - a) / (b - a)
    first, second, third, fourth = l(d0, d1, f(v, x0, y0)), l(d1, d2, f(v, x1, y1)), l(d0, d1, f(u, x0, y0)), l(d1, d2, f(u, x1, y1))
    dens = And(y0 - x1 > 0, y0 - x0 > 0, y1 - x1 > 0)
    F1, F2, F3, F4, fa, fb = z3.Reals('F1 F2 F3 F4 fa fb')
    with c.under(dens, F1 == first, F2 == second, F3 == third, F4 == fourth, fa == f(u, x1, y0), fb == f(v, x1, y0)):
        c.ensure('the order of two blends does not matter', l(F1, F2, fa) == l(F3, F4, fb))
    U, p, k, u = arbitrary_span(c)
    j, v = c.int('j'), c.real('v')
    c.assume(And(U(j) < U(j + 1), U(j) <= v, v <= U(j + 1)))
    new = lambda x: If(x <= j, U(x), If(x == j + 1, v, U(x - 1)))
    kk = k + 1 if right else k
    # the span of u in the new knots is not empty either
    c.assume(And(k >= j, Implies(k == j, And(v <= u, v < U(k + 1)))) if right else And(k <= j, Implies(k == j, And(u <= v, U(k) < v))))
    D, E = Blend('D', U, p, k, u), Blend('E', new, p, kk, u)
    i, r = c.int('i'), c.int('r', 0)
    b = lambda i, r: (v - U(i)) / (U(i + p - r) - U(i))
    A = lambda i, r: i <= j - p + r
    B = lambda i: i > j
    mix = lambda i, r: D(i - 1, r) * (1 - b(i, r)) + D(i, r) * b(i, r)
    claim = lambda i, r: E(i, r) == If(A(i, r), D(i, r), If(B(i), D(i - 1, r), mix(i, r)))
    with c.under(kk - p <= i, i <= kk):
        # Boehm's points (contract above)
        G = lambda i: D(i, 0)
        al = (v - U(i)) / (U(i + p) - U(i))
        with c.under(E(i, 0) == If(i <= j - p, G(i), If(i >= j + 1, G(i - 1), G(i) * al + G(i - 1) * (1 - al)))):
            c.ensure('level 0', claim(i, I(0)))
    with c.under(i == kk, r == p, claim(i, r)):
        c.ensure('last level: the same value', E(kk, p) == D(k, p))
    c.assume(And(r < p, kk - p + r + 1 <= i, i <= kk))
    c.assume(And(claim(i - 1, r), claim(i, r)))
    c.assume(E.step(i, r + 1))
    for x in (i - 1, i):                    # the old entries of the next level that are defined
        c.assume(Implies(And(k - p + r + 1 <= x, x <= k), D.step(x, r + 1)))
    ks = [j, j + 1, k, k + 1]
    xs = [i - 2, i - 1, i, i + p - r - 2, i + p - r - 1, i + p - r]
    for a in xs:
        for y in ks + xs:
            if a is not y:
                in_order(c, U, a, y)
                in_order(c, U, y, a)
    cases = [('left of the knot', And(A(i, r), A(i - 1, r))), ('first blended', And(A(i - 1, r), Not(A(i, r)))), ('blended', And(Not(A(i - 1, r)), Not(B(i)))),
             ('last blended', And(B(i), Not(B(i - 1)))), ('right of the knot', B(i - 1))]
    # each case over named values, so that what remains is an identity between rational functions
    for name, cond in cases:
        if right and name in ('left of the knot', 'first blended') or not right and name in ('last blended', 'right of the knot'):
            c.ensure('%s: cannot be' % name, Not(cond))
            continue
        with c.under(cond):
            c.lemma('%s: divisor' % name, new(i + p - r) - new(i) > 0)
            if name == 'left of the knot':
                c.lemma('%s: same knots' % name, And(new(i) == U(i), new(i + p - r) == U(i + p - r)))
            elif name == 'first blended':
                c.lemma('%s: knots' % name, And(new(i) == U(i), new(i + p - r) == v, i + p - r == j + 1, U(j + 1) > U(i)))
            elif name == 'blended':
                c.lemma('%s: knots' % name, And(new(i) == U(i), new(i + p - r) == U(i + p - r - 1), U(i + p - r) > U(i), U(i + p - r - 1) > U(i - 1)))
            elif name == 'last blended':
                c.lemma('%s: knots' % name, And(i == j + 1, new(i) == v, new(i + p - r) == U(i + p - r - 1), U(i + p - r - 1) > U(i - 1)))
            else:
                c.lemma('%s: knots' % name, And(new(i) == U(i - 1), new(i + p - r) == U(i + p - r - 1)))
            if name == 'blended':           # inserting u then v, or v then u
                at = [U(i - 1), U(i), U(i + p - r - 1), U(i + p - r), D(i - 2, r), D(i - 1, r), D(i, r)]
                inst = lambda t: z3.substitute(t, *zip(names, at))
                c.lemma('blended: divisors', inst(dens))
                c.lemma('blended: entries before', inst(And(E(i - 1, r) == first, E(i, r) == second)))
                c.lemma('blended: new factor', E.a(i, r + 1) == inst(f(u, x1, y0)))
                c.lemma('blended: old entries', inst(And(D(i - 1, r + 1) == third, D(i, r + 1) == fourth)))
                c.lemma('blended: case', And(Not(A(i, r + 1)), Not(B(i))))
                c.lemma('blended: old factor', b(i, r + 1) == inst(f(v, x1, y0)))
                # the instance of the identity above, all its hypotheses shown
                c.assume(l(E(i - 1, r), E(i, r), E.a(i, r + 1)) == l(D(i - 1, r + 1), D(i, r + 1), b(i, r + 1)))
                c.ensure(name, E(i, r + 1) == mix(i, r + 1))
                continue
            c.ensure(name, claim(i, r + 1))


SUR = MESH + ['NurbsSurface.cpp', 'NurbsCurve.cpp']
TEMPS = (('_tempPointsU', 'Point3'), ('_tempPointsV', 'Point3'), ('_tempWeightsU', 'double'), ('_tempWeightsV', 'double'))


class Side:
    """one direction of a surface, in the form the curve contracts use"""

    def __init__(self, c, p, n, kv):
        self.p, self.n, self.kv = p, n, kv
        self.U = lambda i: c.at(kv, i)


class Surface:
    """an arbitrary clamped surface in an arbitrary state of its scratch buffers"""

    def __init__(self, c, name='s', pu=None, pv=None):
        self.c = c
        pu, pv = c.int('du', 0) if pu is None else I(pu), c.int('dv', 0) if pv is None else I(pv)
        nu, nv = c.int('nu', 1), c.int('nv', 1)
        c.assume(And(pu < nu, nu < 2 ** 15, pv < nv, nv < 2 ** 15))
        self.lv = c.construct('NurbsSurface')
        s = c.val(self.lv)
        f = dict(s.f)
        for k, ty in (('_knotsU', 'double'), ('_knotsV', 'double'), ('_weights', 'double'), ('_points', 'Point3')) + TEMPS:
            f[k] = c.sym('std::vector<%s>' % ty, name + k)
        f['_degreeU'], f['_degreeV'], f['_iNbPointsU'], f['_iNbPointsV'] = pu, pv, nu, nv
        f['_bClosedU'], f['_bClosedV'] = z3.Bool(name + 'cu'), z3.Bool(name + 'cv')
        c.ex.wr(self.lv, Struct(s.cls, f))
        self.u, self.v = Side(c, pu, nu, f['_knotsU']), Side(c, pv, nv, f['_knotsV'])
        self.wv, self.pv = f['_weights'], f['_points']
        c.assume(And(f['_knotsU'].len() == nu + pu + 1, f['_knotsV'].len() == nv + pv + 1, self.wv.len() == nu * nv, self.pv.len() == nu * nv))
        c.assume(And(f['_tempPointsU'].len() >= pu + 1, f['_tempWeightsU'].len() >= pu + 1, f['_tempPointsV'].len() >= pv + 1, f['_tempWeightsV'].len() >= pv + 1))
        self.w = lambda i, j: c.at(self.wv, i + nu * j)
        self.P = lambda i, j: V.of(c.at(self.pv, i + nu * j))
