from .spline import *
P = 'C17'
INS, ELEV = 'NurbsCurve::insert_knot', 'NurbsCurve::degree_elevation'


def scaled_contract(c, endpoints):
    """scale_knots: the affine image onto [0,1] (C15); values that start at 0, end at 1 and never leave it stay"""
    def h(ex, this, args, fn):
        v = ex.rd(args[0])
        if not ex.quiet:
            j = c.fresh_int('j', 0, v.len())
            endpoints(v, j)
            c.ensure('the new knots start at 0 and end at 1', And(v.len() >= 2, v.get(I(0), ex) == 0, v.get(v.len() - 1, ex) == 1))
            c.ensure('and stay between', And(v.get(j, ex) >= 0, v.get(j, ex) <= 1))
        return None
    c.ex.handlers[c.fn('NurbsCurve::scale_knots').mangled] = h
    c.ex.used_contracts.add('NurbsCurve::scale_knots (the affine image onto [0,1]: C15)')


def valid(c, q, k):
    """sorted knots within [0,1] around span k, clamped at both ends; positive weights"""
    U, p, n = q.U, q.p, q.n
    a = z3.Int('a')
    c.assume(ForAll(a, Implies(And(0 <= a, a <= k), And(U(a) >= 0, U(a) <= U(k))), patterns=[U(a)]))
    c.assume(ForAll(a, Implies(And(k < a, a <= n + p), And(U(k + 1) <= U(a), U(a) <= 1)), patterns=[U(a)]))
    c.assume(ForAll(a, Implies(And(0 <= a, a < n), q.w(a) > 0), patterns=[q.w(a)]))
    c.assume(And(U(I(0)) == 0, U(n + p) == 1))


@contract(P, 'knot insertion', CUR)
def _(c):
    q = any_curve(c)
    p, n, U = q.p, q.n, q.U
    u, k = c.real('u'), c.int('k')
    c.assume(And(u >= 0, u <= 1, in_span(c, q, k, u)))
    valid(c, q, k)
    span_contract(c, q, k)
    scaled_contract(c, lambda v, j: None)
    i = c.fresh_int('i', 0, n + 1)
    c.call(INS, q.lv, [u])
    f = c.val(q.lv).f
    c.ensure('degree kept', f['_degree'] == p)
    c.ensure('one more knot, point and weight', And(f['_knots'].len() == n + p + 2, f['_points'].len() == n + 1, f['_weights'].len() == n + 1, f['_iNbPoints'] == n + 1))
    j = c.fresh_int('j', 0, n + p + 2)
    c.ensure('the knot is put in its place', c.at(f['_knots'], j) == If(j <= k, U(j), If(j == k + 1, u, U(j - 1))))
    W, Q = c.at(f['_weights'], i), V.of(c.at(f['_points'], i))
    with c.under(i <= k - p):
        c.ensure('points before the affected ones', And(W == q.w(i), (Q * W).eq(q.P(i) * q.w(i))))
    with c.under(i >= k + 1):
        c.ensure('points after the affected ones', And(W == q.w(i - 1), (Q * W).eq(q.P(i - 1) * q.w(i - 1))))
    with c.under(i > k - p, i <= k):
        al = (u - U(i)) / (U(i + p) - U(i))
        c.lemma('divisor', U(i + p) > U(i))
        c.ensure('factor', And(al >= 0, al <= 1))
        want = q.w(i) * al + q.w(i - 1) * (1 - al)
        c.ensure('weights of the affected points', W == want)
        with c.under(W == want, want != 0):
            c.ensure('affected points', (Q * want).eq(q.P(i) * q.w(i) * al + q.P(i - 1) * q.w(i - 1) * (1 - al)))


# ------------------------------------------------------------------ the points above describe the same curve
for _r in (False, True):
    contract(P, 'insertion keeps the shape, every degree: %s the new knot' % ('behind' if _r else 'before'), CUR)(lambda c, r=_r: boehm_any(c, r))


# ------------------------------------------------------------------ degree elevation
def elevate(c, p, mults):
    """degree p, interior knots with the given multiplicities (values, points and weights arbitrary)"""
    d = len(mults)
    vals = [z3.RealVal(0)] + [c.real('u%d' % i) for i in range(1, d + 1)] + [z3.RealVal(1)]
    for a, b in zip(vals, vals[1:]):
        c.assume(a < b)
    m = [p + 1] + list(mults) + [p + 1]
    flat = lambda extra: [v for v, k in zip(vals, m) for _ in range(k + extra)]
    old = flat(0)
    n = len(old) - p - 1
    pts = [c.sym('Point3', 'P%d' % i) for i in range(n)]
    ws = [c.real('w%d' % i) for i in range(n)]
    for w in ws:
        c.assume(w > 0)
    q = c.construct('NurbsCurve')
    lit = lambda ty, xs: c.obj(Lit(parse_type(ty), xs))
    c.ex.handlers[c.fn('NurbsCurve::scale_knots').mangled] = lambda ex, this, args, fn: None
    c.ex.used_contracts.add('NurbsCurve::scale_knots (the affine image onto [0,1], here the identity: C15)')
    c.call('NurbsCurve::set_degree', q, [I(p)])
    c.call('NurbsCurve::set_points', q, [lit('Point3', pts)])
    c.call('NurbsCurve::set_weights', q, [lit('double', ws)])
    c.call('NurbsCurve::set_knots', q, [lit('double', old)])
    with quiet(c):
        r = c.call(ELEV, q)
    c.ensure('accepted', r)
    c.ensure('degree raised by one', c.call('NurbsCurve::degree', q) == p + 1)
    k, w, x = [c.call('NurbsCurve::' + f, q, const=True) for f in ('knots', 'weights', 'points')]
    new = flat(1)
    c.lemma('every multiplicity raised by one', And(k.len() == len(new), *[c.at(k, i) == v for i, v in enumerate(new)]))
    N = len(new) - p - 2
    c.lemma('control points and weights to match', And(w.len() == N, x.len() == N))
    s, s2 = p, p + 1
    t = c.real('t')
    W = [c.at(w, i) for i in range(N)]
    X = [V.of(c.at(x, i)) for i in range(N)]
    H = [V.of(v) for v in pts]
    for i in range(d + 1):
        with c.under(vals[i] <= t, t <= vals[i + 1]):
            b0 = basis_on(lambda o: old[s + o], t, p)
            b1 = basis_on(lambda o: new[s2 + o], t, p + 1)
            c.ensure('weight of the points of span %d' % i, sum((b * W[s2 + o] for o, b in b1.items()), z3.RealVal(0)) == sum((b * ws[s + o] for o, b in b0.items()), z3.RealVal(0)))
            for a in 'xyz':
                c.ensure('coordinate %s of the points of span %d' % (a, i), sum((b * (getattr(X[s2 + o], a) * W[s2 + o]) for o, b in b1.items()), z3.RealVal(0)) == sum((b * (getattr(H[s + o], a) * ws[s + o]) for o, b in b0.items()), z3.RealVal(0)))
        if i < d:
            s, s2 = s + m[i + 1], s2 + m[i + 1] + 1


# ---- any number of knots: ghosts J (distinct values before an index) and X (last index of the l-th distinct value)
class Runs:
    def __init__(self, c, q, simple):
        self.c, self.q, self.simple = c, q, simple
        Z = z3.IntSort()
        U, p, n = q.U, q.p, q.n
        N = self.N = n + p                          # last knot
        self.jump = lambda x: U(x) != U(x + 1)
        if simple:
            self.J = lambda x: If(x <= p, 0, If(x >= n, n - p, x - p))
            self.X = lambda l: If(l == n - p, N, l + p)
        else:
            J, X = z3.Function('J', Z, Z), z3.Function('X', Z, Z)
            self.J, self.X = lambda x: J(x if is_term(x) else I(x)), lambda l: X(l if is_term(l) else I(l))
        self.R = lambda x: If(self.J(x) == 0, 0, self.X(self.J(x) - 1) + 1)       # where its value starts

    def ends(self, x):
        return Or(x == self.N, self.jump(x))

    def at(self, *xs):
        """definition of J at these indices, and of X where their value ends"""
        c, J, X = self.c, self.J, self.X
        c.assume(J(I(0)) == 0)
        for x in xs:
            c.assume(Implies(And(0 <= x, x < self.N), J(x + 1) == J(x) + If(self.jump(x), 1, 0)))
            c.assume(Implies(And(0 <= x, x <= self.N, self.ends(x)), X(J(x)) == x))

    def last(self, *ls):
        """X finds the last index of a value (lemma: distinct values are counted in order)"""
        for l in ls:
            x = self.X(l)
            self.c.assume(Implies(And(0 <= l, l <= self.J(self.N)), And(0 <= x, x <= self.N, self.ends(x), self.J(x) == l)))

    def mono(self, *pairs):
        """J grows, by at most one each step (same lemma)"""
        for a, b in pairs:
            self.c.assume(Implies(And(0 <= a, a <= b, b <= self.N), And(self.J(a) <= self.J(b), self.J(b) - self.J(a) <= b - a, self.J(a) >= 0)))

    def third(self, k):
        """the factor of the elevation (degree two) at the last index of a value"""
        U = self.q.U
        return (U(k + 1) - U(k)) / (3 * (U(k + 2) - U(k)))

    def near(self, l):
        """[lemma: runs of a curve of degree two] the l-th and (l-1)-th values and what follows for the factors"""
        U, X, n = self.q.U, self.X, self.q.n
        k, B, b1 = X(l - 1), self.third, z3.RealVal(1) / 3
        return [('place', And(2 <= k, k < n, k + 1 <= X(l), Implies(l < self.J(self.N), X(l) <= k + 2), Implies(l == self.J(self.N), X(l) == k + 3))),
                ('order', And(U(k) < U(k + 1), U(k + 1) <= U(k + 2), Implies(X(l) > k + 1, U(k + 1) == U(k + 2)))),
                ('factor', And(B(k) > 0, B(k) <= b1, Implies(X(l) > k + 1, B(k) == b1))),
                ('value before', And(Implies(l == 1, k == 2), Implies(l > 1, And(k - X(l - 2) >= 1, k - X(l - 2) <= 2)))),
                ('factor before', Implies(Or(l == 1, k - X(l - 2) > 1), And(U(k - 1) == U(k), B(k - 1) == 0)))]


@contract(P, 'distinct values are counted in order', CUR)
def _(c):
    q = any_curve(c)
    r = Runs(c, q, False)
    a, b, m = c.int('a', 0), c.int('b'), c.int('m', 0)
    c.assume(And(a <= b, b < r.N))
    r.at(b)
    grows = lambda a, b: And(r.J(a) <= r.J(b), r.J(b) - r.J(a) <= b - a)
    found = lambda b: Implies(m < r.J(b), And(0 <= r.X(m), r.X(m) < b, r.jump(r.X(m)), r.J(r.X(m)) == m))
    c.ensure('start', grows(a, a))
    c.ensure('start of finding', found(I(0)))
    with c.under(grows(a, b)):
        c.ensure('step', grows(a, b + 1))
    with c.under(found(b)):
        c.ensure('step of finding', found(b + 1))


@contract(P, 'runs of a curve of degree two', CUR)
def _(c):
    q = any_curve(c, p=I(2))
    clamped(c, q, c.int('k0'))
    r = Runs(c, q, False)
    l, X, n, N = c.int('l', 1), r.X, q.n, r.N
    r.at(I(0), I(1), I(2), n - 1, n, n + 1, N)
    r.last(I(0), l - 2, l - 1, l, r.J(N) - 1)
    c.assume(l <= r.J(N))
    k = X(l - 1)
    r.at(k, k + 1, k + 2, X(l - 2), X(l - 2) + 1, X(l - 2) + 2)
    r.mono((n, k), (k, n - 1), (n, X(l - 2)), (X(l - 2) + 1, k), (k + 1, X(l)), (X(l - 2) + 2, k), (k + 2, X(l)), (k, X(l - 2)), (X(l), k), (n - 1, N), (n, N), (n, X(l)))
    for label, f in r.near(l):
        c.lemma(label, f)
    a = c.int('a', 0)
    r.last(a)
    r.at(X(l))
    r.mono((X(l) + 1, X(a)))
    c.ensure('last indices grow', Implies(a <= l, X(a) <= X(l)))
    w, v, b = c.real('w'), c.real('v'), c.real('b')
    c.assume(And(w > 0, v > 0, b > 0, b <= z3.RealVal(1) / 3))
    c.ensure('a mean of positive weights', positive_mean(w, v, b))


def positive_mean(w, v, b):
    b1, b2 = z3.RealVal(1) / 3, z3.RealVal(2) / 3
    return And(w * b + v * (1 - b) > 0, w * (b + b2) + v * (b1 - b) > 0)


def clamped(c, q, k0):
    """knots of a valid clamped curve of degree 0..2: sorted, ends 0 and 1 p+1 times and no more, interior values at most max(p,1) times"""
    U, p, n = q.U, q.p, q.n
    x = z3.Int('x')
    deg = z3.simplify(p).as_long()
    for i in range(deg + 1):
        c.assume(And(U(I(i)) == 0, U(n + i) == 1))
    c.assume(ForAll(x, Implies(And(0 <= x, x < n + p), And(0 <= U(x), U(x) <= U(x + 1), U(x + 1) <= 1)), patterns=[U(x)]))
    c.assume(And(U(p) < U(p + 1), U(n - 1) < U(n)))
    c.assume(ForAll(x, Implies(And(min(deg, 1) <= x, x <= n - 1), U(x) < U(x + max(deg, 1))), patterns=[U(x)]))
    c.assume(ForAll(x, Implies(And(0 <= x, x < n), q.w(x) > 0), patterns=[q.w(x)]))
    c.assume(And(p <= k0, k0 < n, U(k0) < U(k0 + 1)))


def elevate_any(c, deg):
    """an arbitrary non-empty span k0 of an arbitrary valid curve: its knots, points and weights afterwards"""
    q = any_curve(c, p=I(deg))
    U, p, n = q.U, q.p, q.n
    r = Runs(c, q, deg < 2)
    J, X, N = r.J, r.X, r.N
    if deg < 2:
        k0 = c.int('k0')
        j0 = J(k0)
    else:                                           # every non-empty span ends one of the values
        j0 = c.int('j0', 0)
        c.assume(j0 < J(N))
        k0 = X(j0)
    clamped(c, q, k0)
    e = c.fresh_int('e', 0, N + 1)                  # any knot
    scaled_contract(c, lambda v, j: None)
    if deg < 2:                                     # the counts are known in closed form
        with c.under():
            x = c.fresh_int('x', 0, N)
            c.ensure('closed count', J(x + 1) == J(x) + If(r.jump(x), 1, 0))
            c.ensure('closed end', Implies(r.jump(x), X(J(x)) == x))
            c.ensure('closed end of all', And(X(J(N)) == N, J(I(0)) == 0))
            l = c.fresh_int('l', 0, J(N) + 1)
            c.ensure('closed finding', And(0 <= X(l), X(l) <= N, r.ends(X(l)), J(X(l)) == l))
    track = [k0 + d for d in range(-1, 3 + (deg == 2))] + [e]
    r.at(*track, *[I(i) for i in range(deg + 1)], *[n + i for i in range(-1, deg + 1)])
    r.last(I(0), j0 - 1, j0, j0 + 1, J(N) - 1, J(N))
    r.mono(*[(x, N) for x in track], *[(x, n) for x in track], *[(I(0), x) for x in track])
    m = z3.Int('m')

    def copied(E, x):
        return And(c.at(E, x + J(x)) == U(x), Implies(r.ends(x), c.at(E, x + J(x) + 1) == U(x)))

    def mult(M, l):
        return c.at(M, l) == z3.ToReal(X(l) - If(l == 0, -1, X(l - 1)))

    def inv0(L):
        k, l, E, M = L['k'], L['l'], L['elevatedKnots'], L['knotMultiplicity']
        r.at(k)
        r.mono(*[(x, k) for x in track], *[(x, k + 1) for x in track], (I(0), k))
        out = [('range', And(0 <= k, k <= N)), ('sizes', And(E.len() == k + J(k), M.len() == J(k))), ('run so far', l == k - r.R(k) + 1)]
        out += [('knot %d copied' % i, c.of(e, Implies(And(0 <= x, x < k), copied(E, x)))) for i, x in enumerate(track)]
        out += [('first', Implies(k > 0, c.at(E, 0) == 0)), ('between', ForAll([m], Implies(And(0 <= m, m < E.len()), And(c.at(E, m) >= 0, c.at(E, m) <= 1))))]
        return out + [('multiplicities', ForAll([m], Implies(And(0 <= m, m < J(k)), mult(M, m))))]
    c.loop_inv(ELEV, 0, inv0)
    b1, b2 = z3.RealVal(1) / 3, z3.RealVal(2) / 3
    B = r.third
    hom = lambda i: list(q.P(i) * q.w(i)) + [q.w(i)]
    new = lambda Q, W, i: list(V.of(c.at(Q, i))) + [c.at(W, i)]
    mixed = lambda Q, W, i, *terms: And(*[x == sum((g[a] * f for f, g in terms), z3.RealVal(0)) for a, x in enumerate(new(Q, W, i))])
    early = lambda Q, W, k, at: mixed(Q, W, at, (B(k), hom(k)), (1 - B(k), hom(k - 1)))
    late = lambda Q, W, k, at: mixed(Q, W, at, (B(k) + b2, hom(k)), (b1 - B(k), hom(k - 1)))
    kk = k0 + j0 + 1                                # the span among the new knots

    def inv3(L):
        l, k, Q, W, M = L['l'], L['k'], L['newPoints'], L['newWeights'], L['knotMultiplicity']
        with_facts = And(1 <= l, l <= J(N))
        for x in (l - 1, l - 2):
            c.assume(Implies(And(j0 <= x, x <= J(N)), k0 <= X(x)))
        for _, fact in r.near(l):
            c.assume(Implies(with_facts, fact))
        c.assume(Implies(with_facts, positive_mean(q.w(X(l - 1)), q.w(X(l - 1) - 1), B(X(l - 1)))))
        return [('range', And(1 <= l, l <= J(N) + 1)), ('value', k == X(l - 1)),
                ('sizes', And(Q.len() == W.len(), Q.len() == If(l == 1, 1, X(l - 2) + l))),
                ('weights', ForAll([m], Implies(And(0 <= m, m < W.len()), c.at(W, m) > 0))),
                ] + [(label + late_, Implies(when, f)) for label, first, f in pieces(Q, W) for late_, when in (('', l == first), (', later', l > first))]

    def pieces(Q, W):
        """what is known of the points around the span from which value on"""
        kb, more = X(j0 - 1), j0 > 0
        simple = k0 - kb == 1                       # the knot at the start of the span
        return [('start of the span, first', j0 + 1, Implies(j0 == 0, mixed(Q, W, 0, (1, hom(I(0)))))),
                ('start of the span, simple knot', j0 + 1, Implies(And(more, simple), early(Q, W, kb, kk - 3))),
                ('start of the span, double knot', j0 + 1, Implies(And(more, Not(simple)), mixed(Q, W, kk - 3, (1, hom(kb))))),
                ('behind it, simple knot', j0 + 1, Implies(And(more, simple), late(Q, W, kb, kk - 2))),
                ('behind it, double knot', j0 + 2, Implies(Not(And(more, simple)), mixed(Q, W, kk - 2, (b2, hom(k0 - 1)), (b1, hom(k0 - 2))))),
                ('before its end', j0 + 2, early(Q, W, k0, kk - 1)), ('end of the span', j0 + 2, late(Q, W, k0, kk))]
    if deg == 2:
        c.loop_inv(ELEV, 3, inv3)
    ok = c.call(ELEV, q.lv)
    f = c.val(q.lv).f
    E, W, Q = f['_knots'], f['_weights'], f['_points']
    c.ensure('accepted', ok)
    c.ensure('degree raised by one', f['_degree'] == p + 1)
    c.lemma('one more knot for every distinct value', E.len() == N + J(N) + 2)
    c.lemma('points and weights to match', And(Q.len() == n + J(N), W.len() == n + J(N), f['_iNbPoints'] == n + J(N)))
    c.ensure('every knot is there, the last of each value twice', c.of(e, copied(E, e)))
    want = {-2: k0 - 1, -1: k0, 0: k0, 1: k0 + 1, 2: k0 + 1, 3: k0 + 2}
    around = {o: x for o, x in want.items() if -deg <= o <= deg + 1}
    for o, x in around.items():
        c.lemma('knot %+d of the span' % o, c.at(E, kk + o) == U(x))
    G = {o: [c.real('g%+d%s' % (o, a)) for a in 'xyzw'] for o in range(-deg, 1)}
    # the span's points, in homogeneous coordinates
    def points(coef):
        for o, t in coef.items():
            w = c.at(W, kk + o)
            c.lemma('weight %+d of the span' % o, And(w == sum((q.w(i) * f for f, i in t), z3.RealVal(0)), w > 0))
            for a in 'xyz':
                c.ensure('point %+d of the span, %s' % (o, a), getattr(V.of(c.at(Q, kk + o)), a) * w == sum((getattr(q.P(i), a) * q.w(i) * f for f, i in t), z3.RealVal(0)))
    if deg == 0:
        return points({-1: [(1, k0)], 0: [(1, k0)]})
    if deg == 1:
        return points({-2: [(1, k0 - 1)], -1: [(z3.RealVal(1) / 2, k0 - 1), (z3.RealVal(1) / 2, k0)], 0: [(1, k0)]})
    points({-1: [(B(k0), k0), (1 - B(k0), k0 - 1)], 0: [(B(k0) + b2, k0), (b1 - B(k0), k0 - 1)]})
    kb = X(j0 - 1)
    for _, fact in r.near(j0 + 1):
        c.assume(fact)
    twice = [(b2, k0 - 1), (b1, k0 - 2)]
    with c.under(j0 == 0):
        c.lemma('the first span starts at the first point', And(k0 == 2, kk == 3, U(k0 - 1) == U(k0)))
        points({-3: [(1, I(0))], -2: twice})
    with c.under(j0 > 0, k0 - kb != 1):
        c.lemma('the span starts at a double knot', And(kb == k0 - 2, U(k0 - 1) == U(k0)))
        points({-3: [(1, kb)], -2: twice})
    with c.under(j0 > 0, k0 - kb == 1):
        c.lemma('the span starts at a simple knot', kb == k0 - 1)
        points({-3: [(B(kb), kb), (1 - B(kb), kb - 1)], -2: [(B(kb) + b2, kb), (b1 - B(kb), kb - 1)]})


def same_span(c, deg, double):
    """the points and knots above describe the same curve (per homogeneous coordinate): old knots a<=b<d<=e around the span"""
    a, b, d, e, t = [c.real(x) for x in 'a b d e t'.split()]
    c.assume(And(a == b if double else a < b, b < d, d <= e, b <= t, t <= d))
    old = {-1: a, 0: b, 1: d, 2: e}
    new = {-2: a, -1: b, 0: b, 1: d, 2: d, 3: e}
    g = {o: c.real('g%+d' % o) for o in range(-deg, 1)}
    b1, b2 = z3.RealVal(1) / 3, z3.RealVal(2) / 3
    B0, B1 = (b - a) / (3 * (d - a)), (d - b) / (3 * (e - b))
    if deg == 2:
        h = {-1: B1 * g[0] + (1 - B1) * g[-1], 0: (B1 + b2) * g[0] + (b1 - B1) * g[-1]}
        h.update({-3: g[-2], -2: b2 * g[-1] + b1 * g[-2]} if double else {-3: B0 * g[-1] + (1 - B0) * g[-2], -2: (B0 + b2) * g[-1] + (b1 - B0) * g[-2]})
    elif deg == 1:
        h = {-2: g[-1], -1: (g[-1] + g[0]) / 2, 0: g[0]}
    else:
        h = {-1: g[0], 0: g[0]}
    was = sum((n * g[o] for o, n in basis_on(lambda o: old[o], t, deg).items()), z3.RealVal(0))
    now = sum((n * h[o] for o, n in basis_on(lambda o: new[o], t, deg + 1).items()), z3.RealVal(0))
    c.ensure('the same value of the span', now == was)


import itertools
for _p, _ms in [(0, ())] + [(1, (1,) * _k) for _k in range(4)] + [(2, _x) for _k in range(4) for _x in itertools.product((1, 2), repeat=_k)]:
    def _f(c, p=_p, ms=_ms):
        c.bounded = 'at most 3 distinct interior knots (values, points and weights arbitrary)'
        elevate(c, p, ms)
    contract(P, 'elevation of degree %d, interior multiplicities %s' % (_p, ''.join(map(str, _ms)) or '-'), CUR)(_f)


@contract(P, 'elevation above degree two is refused', CUR)
def _(c):
    q = any_curve(c)
    c.assume(q.p >= 3)
    before = c.val(q.lv)
    c.ensure('refused', Not(c.call(ELEV, q.lv)))
    after = c.val(q.lv)
    for f in before.f:
        if not f.startswith('_temp'):
            c.ensure('%s left alone' % f, c.eq(after.f[f], before.f[f]))


for _d in range(3):
    contract(P, 'elevation, any number of knots: degree %d' % _d, CUR)(lambda c, d=_d: elevate_any(c, d))
    for _x in (False, True):
        contract(P, 'elevation, any number of knots: degree %d, same curve%s' % (_d, ', double knot' if _x else ''), CUR)(lambda c, d=_d, x=_x: same_span(c, d, x))
