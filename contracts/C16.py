from .spline import *
P = 'C16'
EV = 'NurbsCurve::evaluate'


@contract(P, 'evaluation is the recursion', CUR)
def _(c):
    q = any_curve(c)
    u = c.real('u')
    k = c.int('k')
    p = q.p
    span_contract(c, q, k)
    D = DeBoor(c, q, k, u)
    o = c.new('Point3', 'out')
    before = c.val(q.lv)
    m = z3.Int('m')

    def temp(j):
        f = c.val(q.lv).f
        return V.of(c.at(f['_tempPoints'], j)), c.at(f['_tempWeights'], j)

    def sizes():
        f = c.val(q.lv).f
        return ('buffers keep their size', And(f['_tempPoints'].len() >= p + 1, f['_tempWeights'].len() >= p + 1))

    def holds(j, r):
        x, w = temp(j)
        y, v = D.at(j + k - p, r)
        return And(x.eq(y), w == v)

    def inv0(L):
        j = L['j']
        c.assume(Implies(And(0 <= j, j <= p), D.start(j + k - p)))
        return [('range', And(0 <= j, j <= p + 1)), sizes(), ('points loaded', ForAll(m, Implies(And(0 <= m, m < j), holds(m, I(0)))))]

    def inv1(L):
        r = L['r']
        return [('range', And(1 <= r, r <= p + 1)), sizes(), ('level done', ForAll(m, Implies(And(r - 1 <= m, m <= p), holds(m, r - 1))))]

    def inv2(L):
        r, j = L['r'], L['j']
        i = j + k - p
        sorted_at(c, q, (i, k), (k + 1, i + p + 1 - r))
        c.assume(Implies(And(1 <= r, r <= j, j <= p), D.step(i, r)))
        return [('range', And(r - 1 <= j, j <= p)), sizes(),
                ('upper part advanced', ForAll(m, Implies(And(j < m, m <= p), holds(m, r)))),
                ('lower part as before', ForAll(m, Implies(And(r - 1 <= m, m <= j), holds(m, r - 1))))]
    for i, f in enumerate((inv0, inv1, inv2)):
        c.loop_inv(EV, i, f)
    x, w = D.at(k, p)
    c.assume(w != 0)            # the curve has a value at the parameter (with positive weights: always)
    c.call(EV, q.lv, [u, o])
    r = V.of(c.val(o))
    c.ensure('the value of the recursion, projected', r.eq(x / w))
    after = c.val(q.lv)
    for f in before.f:
        if not f.startswith('_temp'):
            c.ensure('%s left alone' % f, c.eq(after.f[f], before.f[f]))


# ------------------------------------------------------------------ lemmas about the recursion, by induction on the level
def level(c, name='q', u=None):
    """arbitrary curve, parameter and span; an arbitrary entry (i, r) of the recursion with r >= 1"""
    q = any_curve(c, name)
    u = c.real('u') if u is None else u
    k, i, r = c.int('k'), c.int('i'), c.int('r', 1)
    c.assume(And(in_span(c, q, k, u), r <= q.p, k - q.p + r <= i, i <= k))
    return q, u, k, i, r


@contract(P, 'convex combinations', CUR)
def _(c):
    q, u, k, i, r = level(c)
    D = DeBoor(c, q, k, u)
    sorted_at(c, q, (i, k), (k + 1, i + q.p + 1 - r))
    al = D.alpha(i, r)
    den = q.U(i + q.p + 1 - r) - q.U(i)
    with c.under():
        c.lemma('divisor is positive', den > 0)
        c.ensure('between 0 and 1', And(al >= 0, al <= 1))
    a = z3.Real('alpha')        # that factor
    c.assume(And(a >= 0, a <= 1))
    n, d = V(*[c.real('n' + x) for x in 'xyz']), c.real('d')
    inside = lambda i, r: And(D.at(i, r)[1] > 0, n.dot(D.at(i, r)[0]) <= d * D.at(i, r)[1])
    # the active points lie in an arbitrary half space and have positive weights
    c.assume(D.start(i))
    with c.under(q.w(i) > 0, n.dot(q.P(i)) <= d):
        c.ensure('level 0', inside(i, 0))
    c.assume(D.step(i, r, a))
    with c.under(inside(i - 1, r - 1), inside(i, r - 1)):
        (x, w), (x0, w0), (x1, w1) = D.at(i, r), D.at(i - 1, r - 1), D.at(i, r - 1)
        c.lemma('weight', w == w0 * (1 - a) + w1 * a)
        c.lemma('distance', n.dot(x) - d * w == (n.dot(x0) - d * w0) * (1 - a) + (n.dot(x1) - d * w1) * a)
        c.ensure('level r: weight stays positive', w > 0)
    s, s0, s1 = z3.Reals('s s0 s1')
    with c.under(s == s0 * (1 - a) + s1 * a, s0 <= 0, s1 <= 0):
        c.ensure('level r: on the same side', s <= 0)
    x, w = D.at(k, q.p)
    with c.under(inside(k, q.p)):
        y = z3.Reals('yx yy yz')
        Y = V(*y)
        c.assume(And(*[t * w == s for t, s in zip(Y, x)]))
        c.lemma('product', n.dot(Y) * w == n.dot(x))
        c.ensure('the value lies in every half space that contains the active points', n.dot(Y) <= d)


@contract(P, 'end points', CUR)
def _(c):
    for end in (0, 1):
        q, u, k, i, r = level(c, 'q%d' % end, z3.RealVal(end))
        D = DeBoor(c, q, k, u, 'D%d' % end)
        p, n, U = q.p, q.n, q.U
        with c.under():
            # clamped: the first p+1 knots are 0 and no more, the last p+1 are 1 and no more
            sorted_at(c, q, (i, k), (k + 1, i + p + 1 - r))
            c.assume(And(*[And(x >= 0, x <= 1) for x in (U(i), U(i + p + 1 - r), U(k), U(k + 1))]))
            c.assume(And(*[And(Implies(x <= p, U(x) == 0), Implies(x > p, U(x) > 0)) for x in (k, k + 1)]))
            c.assume(And(*[And(Implies(x >= n, U(x) == 1), Implies(x < n, U(x) < 1)) for x in (k, k + 1)]))
            c.assume(D.step(i, r))
            (x, w), (x0, w0), (x1, w1) = D.at(i, r), D.at(i - 1, r - 1), D.at(i, r - 1)
            if end == 0:
                c.lemma('first span', k == p)
                c.lemma('factor', D.alpha(i, r) == 0)
                c.ensure('each level keeps the left point at 0', And(x.eq(x0), w == w0))
                at, edge = k - p, I(0)
            else:
                c.lemma('last span', k == n - 1)
                c.lemma('factor', D.alpha(i, r) == 1)
                c.ensure('each level keeps the right point at 1', And(x.eq(x1), w == w1))
                at, edge = k, n - 1
            # hence (induction) the value is the start of the recursion at `at`
            c.assume(D.start(at))
            (x, w), (a, b) = D.at(k, p), D.at(at, 0)
            with c.under(x.eq(a), w == b, q.w(edge) > 0):
                c.ensure('the curve passes through its %s point' % ('last' if end else 'first'), (x / w).eq(q.P(edge)))


@contract(P, 'weights and transforms', CUR)
def _(c):
    q, u, k, i, r = level(c)
    D = DeBoor(c, q, k, u)
    f = c.real('factor')
    A = [[c.real('a%d%d' % (a, b)) for b in range(3)] for a in range(3)]
    t = V(*[c.real('t%d' % a) for a in range(3)])
    lin = lambda x: V(*[A[a][0] * x.x + A[a][1] * x.y + A[a][2] * x.z for a in range(3)])
    # a second curve with the same knots: weights times f, points mapped
    q2 = Curve(c, 'r', q.p, q.n, q.kv)
    E = DeBoor(c, q2, k, u, 'E')
    img = lambda x, w: ((lin(x) + t * w) * f, w * f)
    same = lambda i, r: And(E.at(i, r)[0].eq(img(*D.at(i, r))[0]), E.at(i, r)[1] == img(*D.at(i, r))[1])
    c.assume(And(D.start(i), E.start(i)))
    with c.under(q2.w(i) == f * q.w(i), q2.P(i).eq(lin(q.P(i)) + t)):
        c.ensure('level 0', same(i, I(0)))
    c.ensure('same factors', D.alpha(i, r) == E.alpha(i, r))
    # the step maps images to images: an identity over arbitrary previous entries and an arbitrary factor
    al = z3.Real('alpha')
    v = lambda n: (V(*[c.real(n + x) for x in 'xyz']), c.real(n + 'w'))
    one = lambda p, q: (p[0] * (1 - al) + q[0] * al, p[1] * (1 - al) + q[1] * al)
    a, b = v('a'), v('b')
    x, y = img(*one(a, b)), one(img(*a), img(*b))
    for k_, (m, n) in enumerate(zip(list(x[0]) + [x[1]], list(y[0]) + [y[1]])):
        c.ensure('level r, component %d' % k_, m == n)
    with c.under(a[1] != 0, f != 0):
        y = img(*a)
        for m, n, x in zip(y[0], lin(a[0]), range(3)):
            c.ensure('the value is mapped, the common factor of the weights drops out (%d)' % x, m * a[1] == (n + list(t)[x] * a[1]) * y[1])


contract(P, 'the recursion is the Cox-de Boor sum, every degree', CUR)(coxdeboor)


# ------------------------------------------------------------------ the recursion is the B-spline: degrees 0 to 3, loops unrolled
def cox(c, p):
    q = any_curve(c, p=I(p))
    u, k = c.real('u'), c.int('k')
    span_contract(c, q, k)
    c.assume(in_span(c, q, k, u))
    sorted_at(c, q, *[(k + o, k) for o in range(1 - p, 1)])
    sorted_at(c, q, *[(k + 1, k + 1 + o) for o in range(0, p)])
    N = basis(q, k, u, p)
    den = sum((N[o] * q.w(k + o) for o in N), z3.RealVal(0))
    out = c.new('Point3', 'out')
    with quiet(c):
        c.call(EV, q.lv, [u, out])
    s = c.val(q.lv).f
    w, x = c.at(s['_tempWeights'], p), V.of(c.at(s['_tempPoints'], p))
    num = V(0, 0, 0)
    for o in N:
        num = num + q.P(k + o) * (q.w(k + o) * N[o])
    c.ensure('the denominator is the weighted sum of the basis functions', w == den)
    for i, (a, b) in enumerate(zip(x, num)):
        c.ensure('the numerator is the weighted sum of the points (%d)' % i, a == b)
    with c.under(w != 0):
        c.ensure('their quotient is returned', V.of(c.val(out)).eq(x / w))


for _p in range(4):
    contract(P, 'Cox-de Boor, degree %d' % _p, CUR)(lambda c, p=_p: cox(c, p))


def fill(c):
    q = any_curve(c).lv                 # any former state
    deg = c.int('d', 0)
    c.assume(deg < 2 ** 20)
    pts, ws = c.new('std::vector<Point3>', 'pts'), c.new('std::vector<double>', 'ws')
    c.assume(And(c.val(pts).len() >= 0, c.val(pts).len() < 2 ** 30, c.val(ws).len() >= 0))
    c.call('NurbsCurve::set_degree', q, [deg])
    c.call('NurbsCurve::set_points', q, [pts])
    c.call('NurbsCurve::set_weights', q, [ws])
    return q, deg, c.val(pts), c.val(ws)


@contract(P, 'building a curve', CUR)
def _(c):
    q, deg, pts, ws = fill(c)
    get = lambda k, **kw: c.call('NurbsCurve::' + k, q, **kw)
    c.ensure('degree', get('degree') == deg)
    c.ensure('points', c.eq(get('points', const=True), pts))
    c.ensure('number of points', get('nb_points') == pts.len())
    c.ensure('weights', c.eq(get('weights'), ws))
    c.call('NurbsCurve::set_equals_weights', q)
    w = get('weights')
    c.ensure('one weight per point', w.len() == pts.len())
    i = c.fresh_int('i', 0, w.len())
    c.ensure('equal weights are all 1', c.at(w, i) == 1)
    c.call('NurbsCurve::clear', q)
    c.ensure('cleared', And(get('degree') == 0, get('nb_points') == 0, get('knots').len() == 0, get('weights').len() == 0))


@contract(P, 'representation of a curve', CUR)
def _(c):
    q, deg, pts, ws = fill(c)
    f = c.val(q).f
    c.ex.used_contracts.add('representation invariant of NurbsCurve (point count, sizes of the scratch buffers) assumed by evaluate')
    c.ensure('point count', f['_iNbPoints'] == pts.len())
    c.ensure('scratch buffers hold at least degree+1 entries', And(f['_tempPoints'].len() >= deg + 1, f['_tempWeights'].len() >= deg + 1))


@contract(P, 'polyline', CUR)
def _(c):
    q, ex = any_curve(c), c.ex
    VAL = [z3.Function('curve_' + x, z3.RealSort(), z3.RealSort()) for x in 'xyz']

    def ev(ex, this, args, fn):
        u = realv(args[0])
        if not ex.quiet:
            c.ensure('parameters lie in the domain', And(0 <= u, u <= 1))
        ex.wr(args[1], mkpt(c, *[f(u) for f in VAL]))
    ex.handlers[c.fn(EV).mangled] = ev
    ex.used_contracts.add('NurbsCurve::evaluate (a function of the parameter: evaluation is the recursion)')
    before = c.val(q.lv)
    out = c.new('std::vector<Point3>', 'out')
    N = 10 * q.n
    j = c.fresh_int('j', 0, N + 1)
    step = c.real('step')
    c.assume(step * realv(N) == 1)
    uj = c.real('uj')
    c.assume(uj == realv(j) * step)
    at = lambda i: V.of(c.at(c.val(out), i))

    def inv(L):
        k, t = c.val(out).len(), L['t']
        return [('range', And(0 <= k, k <= N + 1)), ('equal steps', t == realv(k) * step),
                ('points so far', Implies(j < k, at(j).eq(V(*[f(uj) for f in VAL]))))]
    c.loop_inv('NurbsCurve::to_polyline', 0, inv, measure=lambda L: N + 1 - c.val(out).len())
    c.call('NurbsCurve::to_polyline', q.lv, [out])
    c.ensure('ten points per control point, and the last', c.val(out).len() == N + 1)
    c.ensure('each is the point of the curve at its parameter', at(j).eq(V(*[f(uj) for f in VAL])))
    c.unchanged('the curve stays', q.lv, before)
    e = c.construct('NurbsCurve')
    o2 = c.new('std::vector<Point3>', 'out2')
    c.call('NurbsCurve::to_polyline', e, [o2])
    c.ensure('nothing for a curve without points', c.val(o2).len() == 0)
