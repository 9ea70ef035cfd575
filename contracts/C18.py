from .spline import *
P = 'C18'
EV = 'NurbsSurface::evaluate'


def spans(c, s, ku, kv):
    def h(ex, this, args, fn):
        v = ex.rd(args[0])
        for side, k in ((s.u, ku), (s.v, kv)):
            if v is side.kv:
                c.assume(in_span(c, side, k, args[1]))
                return k
        raise Unsupported('span of other knots')
    c.ex.handlers[c.fn('NurbsSurface::find_knot_span').mangled] = h
    c.ex.used_contracts.add('NurbsSurface::find_knot_span (the span of the parameter: C15)')


@contract(P, 'evaluation is the tensor product of the recursions', SUR)
def _(c):
    s = Surface(c)
    u, v, ku, kv = c.real('u'), c.real('v'), c.int('ku'), c.int('kv')
    spans(c, s, ku, kv)
    pu, pv, nu = s.u.p, s.v.p, s.u.n
    Z, Rr = z3.IntSort(), z3.RealSort()
    R = [z3.Function('Row' + x, Z, Z, Z, Rr) for x in 'xyzw']     # row j, entry i, level r
    C = [z3.Function('Col' + x, Z, Z, Rr) for x in 'xyzw']        # entry j, level r
    row = lambda j, i, r: [f(j, i, r) for f in R]
    col = lambda j, r: [f(j, r) for f in C]
    both = lambda a, b: And(*[x == y for x, y in zip(a, b)])
    alpha = lambda side, t, i, r: (t - side.U(i)) / (side.U(i + side.p + 1 - r) - side.U(i))
    mix = lambda a, b, al: [x * (1 - al) + y * al for x, y in zip(a, b)]
    before = c.val(s.lv)
    m = z3.Int('m')
    F = lambda: c.val(s.lv).f
    temp = lambda d, j: list(V.of(c.at(F()['_tempPoints' + d], j))) + [c.at(F()['_tempWeights' + d], j)]

    def sizes():
        f = F()
        return ('buffers keep their size', And(f['_tempPointsU'].len() >= pu + 1, f['_tempWeightsU'].len() >= pu + 1, f['_tempPointsV'].len() >= pv + 1, f['_tempWeightsV'].len() >= pv + 1))

    def columns(vi):
        return ('rows reduced', ForAll(m, Implies(And(0 <= m, m < vi), both(temp('V', m), col(m + kv - pv, I(0))))))
    one = lambda d, f: [(l, x) for l, x in f]

    def rows_loop(L):
        vi = L['vi']
        return [('range', And(0 <= vi, vi <= pv + 1)), sizes(), columns(vi)]

    def load(L):
        vi, ui = L['vi'], L['ui']
        i, j = ui + ku - pu, vi + kv - pv
        w, x = s.w(i, j), s.P(i, j)
        c.assume(both(row(j, i, I(0)), list(x * w) + [w]))                        # definition of level 0
        return [('range', And(0 <= ui, ui <= pu + 1)), sizes(), columns(vi),
                ('row loaded', ForAll(m, Implies(And(0 <= m, m < ui), both(temp('U', m), row(j, m + ku - pu, I(0))))))]

    def level_u(L):
        vi, r = L['vi'], L['ru']
        j = vi + kv - pv
        c.assume(both(col(j, I(0)), row(j, ku, pu)))                              # definition of the columns
        return [('range', And(1 <= r, r <= pu + 1)), sizes(), columns(vi),
                ('level done', ForAll(m, Implies(And(r - 1 <= m, m <= pu), both(temp('U', m), row(j, m + ku - pu, r - 1)))))]

    def entry_u(L):
        vi, r, ju = L['vi'], L['ru'], L['ju']
        j, i = vi + kv - pv, ju + ku - pu
        sorted_at(c, s.u, (i, ku), (ku + 1, i + pu + 1 - r))
        c.assume(both(row(j, i, r), mix(row(j, i - 1, r - 1), row(j, i, r - 1), alpha(s.u, u, i, r))))     # definition of level r
        return [('range', And(r - 1 <= ju, ju <= pu)), sizes(), columns(vi),
                ('upper part advanced', ForAll(m, Implies(And(ju < m, m <= pu), both(temp('U', m), row(j, m + ku - pu, r))))),
                ('lower part as before', ForAll(m, Implies(And(r - 1 <= m, m <= ju), both(temp('U', m), row(j, m + ku - pu, r - 1)))))]

    def level_v(L):
        r = L['rv']
        return [('range', And(1 <= r, r <= pv + 1)), sizes(),
                ('level done', ForAll(m, Implies(And(r - 1 <= m, m <= pv), both(temp('V', m), col(m + kv - pv, r - 1)))))]

    def entry_v(L):
        r, jv = L['rv'], L['jv']
        j = jv + kv - pv
        sorted_at(c, s.v, (j, kv), (kv + 1, j + pv + 1 - r))
        c.assume(Implies(r >= 1, both(col(j, r), mix(col(j - 1, r - 1), col(j, r - 1), alpha(s.v, v, j, r)))))
        return [('range', And(r - 1 <= jv, jv <= pv)), sizes(),
                ('upper part advanced', ForAll(m, Implies(And(jv < m, m <= pv), both(temp('V', m), col(m + kv - pv, r))))),
                ('lower part as before', ForAll(m, Implies(And(r - 1 <= m, m <= jv), both(temp('V', m), col(m + kv - pv, r - 1)))))]
    for i, f in enumerate((rows_loop, load, level_u, entry_u, level_v, entry_v)):
        c.loop_inv(EV, i, f)
    val = col(kv, pv)
    c.assume(val[3] != 0)       # positive weights (convex combinations: C16), or just some that do not cancel
    o = c.new('Point3', 'out')
    c.call(EV, s.lv, [u, v, o])
    r = V.of(c.val(o))
    c.ensure('the value of the recursion, projected', r.eq(V(*val[:3]) / val[3]))
    after = c.val(s.lv)
    for f in before.f:
        if not f.startswith('_temp'):
            c.ensure('%s left alone' % f, c.eq(after.f[f], before.f[f]))


# ------------------------------------------------------------------ the tensor product B-spline itself
# every degree: each row's recursion is the sum of its points times the basis functions of u, the column's the sum of the rows times those of v
contract(P, 'the recursion is the Cox-de Boor sum, every degree (rows, then the column)', SUR)(coxdeboor)


# and again with the loops unrolled, low degrees
def tensor(c, pu, pv):
    s = Surface(c, pu=pu, pv=pv)
    u, v, ku, kv = c.real('u'), c.real('v'), c.int('ku'), c.int('kv')
    spans(c, s, ku, kv)
    for side, k, t in ((s.u, ku, u), (s.v, kv, v)):
        p = side.p.as_long()
        c.assume(in_span(c, side, k, t))
        sorted_at(c, side, *[(k + o, k) for o in range(1 - p, 1)])
        sorted_at(c, side, *[(k + 1, k + 1 + o) for o in range(0, p)])
    A, B = basis(s.u, ku, u, pu), basis(s.v, kv, v, pv)
    den, num = z3.RealVal(0), V(0, 0, 0)
    for i in A:
        for j in B:
            w = s.w(ku + i, kv + j) * A[i] * B[j]
            den, num = den + w, num + s.P(ku + i, kv + j) * w
    out = c.new('Point3', 'out')
    with quiet(c):
        c.call(EV, s.lv, [u, v, out])
    f = c.val(s.lv).f
    w, x = c.at(f['_tempWeightsV'], pv), V.of(c.at(f['_tempPointsV'], pv))
    c.ensure('the denominator is the weighted sum of the products of basis functions', w == den)
    for i, (a, b) in enumerate(zip(x, num)):
        c.ensure('the numerator is the weighted sum of the points (%d)' % i, a == b)
    with c.under(w != 0):
        c.ensure('their quotient is returned', V.of(c.val(out)).eq(x / w))


for _pu, _pv in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)):
    contract(P, 'tensor product B-spline, degrees %d and %d' % (_pu, _pv), SUR)(lambda c, pu=_pu, pv=_pv: tensor(c, pu, pv))


# ------------------------------------------------------------------ taking the surface apart and putting it together
def curves(c, d):
    """create_*_curves: one curve per line of the control grid in direction d"""
    s = Surface(c)
    a, b = (s.u, s.v) if d == 'u' else (s.v, s.u)
    c.ex.handlers[c.fn('NurbsCurve::scale_knots').mangled] = lambda ex, this, args, fn: None
    c.ex.used_contracts.add('NurbsCurve::scale_knots (the affine image onto [0,1], the identity on the knots of a surface: C15)')
    out = c.new('std::vector<NurbsCurve>', 'out')
    before = c.val(s.lv)
    c.call('NurbsSurface::create_%s_curves' % d, s.lv, [out])
    v = c.val(out)
    c.ensure('one curve per line', v.len() == b.n)
    j, i = c.fresh_int('j', 0, b.n), c.fresh_int('i', 0, a.n)
    f = c.at(v, j).f
    c.ensure('degree', f['_degree'] == a.p)
    c.ensure('knots', c.eq(f['_knots'], a.kv))
    c.ensure('number of points', And(f['_points'].len() == a.n, f['_weights'].len() == a.n, f['_iNbPoints'] == a.n))
    x, y = (i, j) if d == 'u' else (j, i)
    c.ensure('points of the line', V.of(c.at(f['_points'], i)).eq(s.P(x, y)))
    c.ensure('weights of the line', c.at(f['_weights'], i) == s.w(x, y))
    c.unchanged('the surface is left alone', s.lv, before)


for _d in 'uv':
    contract(P, 'curves of the %s direction' % _d, SUR)(lambda c, d=_d: curves(c, d))


def given_curves(c, d, s):
    """a vector of curves, one per line, with common degree, knots and number of points"""
    a, b = (s.u, s.v) if d == 'u' else (s.v, s.u)
    n = c.int('points2', 1)
    deg = c.int('degree2', 0)
    c.assume(And(n < 2 ** 15, deg < n))
    K = c.sym('std::vector<double>', 'K')
    c.assume(K.len() == n + deg + 1)
    Z, Rr = z3.IntSort(), z3.RealSort()
    Q = [z3.Function('Q' + x, Z, Z, Rr) for x in 'xyzw']
    proto = c.val(c.construct('NurbsCurve'))
    ptp = mkpt(c, R(0), R(0), R(0))

    def curve(j):
        f = dict(proto.f)
        f['_degree'], f['_iNbPoints'], f['_knots'] = deg, n, K
        f['_points'] = Base(parse_type('Point3'), n, lambda t: Struct(ptp.cls, dict(ptp.f, _x=Q[0](j, t), _y=Q[1](j, t), _z=Q[2](j, t))))
        f['_weights'] = Base(parse_type('double'), n, lambda t: Q[3](j, t))
        return Struct(proto.cls, f)
    return c.obj(Base(parse_type('NurbsCurve'), b.n, curve)), n, deg, K, Q


def rebuild(c, d):
    s = Surface(c)
    vv, n, deg, K, Q = given_curves(c, d, s)
    a, b = (s.u, s.v) if d == 'u' else (s.v, s.u)
    c.ex.handlers[c.fn('NurbsSurface::scale_knots').mangled] = lambda ex, this, args, fn: None
    c.ex.used_contracts.add('NurbsSurface::scale_knots (the affine image onto [0,1], the identity on the knots of a curve: C15)')
    before = c.val(s.lv)
    i, j = c.fresh_int('i', 0, n), c.fresh_int('j', 0, b.n)
    at = i + n * j if d == 'u' else j + b.n * i
    c.lemma('address', And(at >= 0, at < n * b.n))
    if d == 'v':
        nu = b.n

        def there(L, cond):
            vp, vw = L['vp'], L['vw']
            return [('sizes', And(vp.len() == nu * n, vw.len() == nu * n)),
                    ('point at its place', Implies(cond, And(V.of(c.at(vp, at)).eq(V(*[q(j, i) for q in Q[:3]])), c.at(vw, at) == Q[3](j, i))))]

        def outer(L):
            u = L['u']
            return [('range', And(0 <= u, u <= nu))] + there(L, j < u)

        def inner(L):
            u, v = L['u'], L['v']
            here = u + v * nu
            c.assume(Implies(v < i, nu * v + nu <= nu * i))                  # proved below: multiples
            c.assume(Implies(v > i, nu * i + nu <= nu * v))
            c.assume(Implies(v < n, nu * v + nu <= nu * n))
            return [('range', And(0 <= v, v <= n))] + there(L, Or(j < u, And(j == u, i < v)))
        x, y, z = c.int('x', 0), c.int('y', 0), c.int('z', 0)
        with c.under(x < y):
            k = c.int('k', 0)
            with c.under(y == x + 1 + k):
                c.ensure('multiples', z * x + z <= z * y)
        c.loop_inv('NurbsSurface::from_v_curves', 0, outer)
        c.loop_inv('NurbsSurface::from_v_curves', 1, inner)
    c.call('NurbsSurface::from_%s_curves' % d, s.lv, [vv])
    f = c.val(s.lv).f
    dd, oo = d.upper(), 'V' if d == 'u' else 'U'
    c.ensure('degree', f['_degree' + dd] == deg)
    c.ensure('knots', c.eq(f['_knots' + dd], K))
    c.ensure('number of points', And(f['_iNbPoints' + dd] == n, f['_points'].len() == n * b.n, f['_weights'].len() == n * b.n))
    for k in ('_degree', '_iNbPoints', '_knots', '_bClosed'):
        c.ensure('the other direction keeps its %s' % k, c.eq(f[k + oo], before.f[k + oo]))
    c.ensure('closed flag kept', f['_bClosed' + dd] == before.f['_bClosed' + dd])
    c.ensure('every point at its place', V.of(c.at(f['_points'], at)).eq(V(*[q(j, i) for q in Q[:3]])))
    c.ensure('every weight at its place', c.at(f['_weights'], at) == Q[3](j, i))


for _d in 'uv':
    contract(P, 'surface from curves of the %s direction' % _d, SUR)(lambda c, d=_d: rebuild(c, d))


# ------------------------------------------------------------------ refinement: every line exactly once, nothing else
def refine(c, d, what):
    """the lines are taken out, each one is refined once with the same parameter, and all are put back in order
    (the ghost mark of line j is 4j before and 4j+1 after its refinement)"""
    ex = c.ex
    s = Surface(c)
    a, b = (s.u, s.v) if d == 'u' else (s.v, s.u)
    t = c.real('t')
    calls = {'create': 0, 'from': 0}
    proto = c.val(c.construct('NurbsCurve'))

    def create(ex, this, args, fn):
        calls['create'] += 1
        ex.wr(args[0], Base(parse_type('NurbsCurve'), b.n, lambda j: Struct(proto.cls, dict(proto.f, _degree=4 * j))))

    def one(ex, this, args, fn):
        v = ex.rd(this)
        if what == 'insert' and not ex.quiet:
            c.ensure('the given parameter', args[0] == t)
        ex.wr(this, Struct(v.cls, dict(v.f, _degree=v.f['_degree'] + 1)))
        return z3.BoolVal(True)

    def put(ex, this, args, fn):
        calls['from'] += 1
        v = ex.rd(args[0])
        c.ensure('as many lines as before', v.len() == b.n)
        j = c.fresh_int('j', 0, b.n)
        c.ensure('every line refined once, in order', v.get(j, ex).f['_degree'] == 4 * j + 1)
    f = 'insert_knot' if what == 'insert' else 'degree_elevation'
    ex.handlers[c.fn('NurbsSurface::create_%s_curves' % d).mangled] = create
    ex.handlers[c.fn('NurbsCurve::' + f).mangled] = one
    ex.handlers[c.fn('NurbsSurface::from_%s_curves' % d).mangled] = put
    ex.used_contracts |= {'NurbsSurface::create_%s_curves (curves of the %s direction)' % (d, d), 'NurbsSurface::from_%s_curves (surface from curves of the %s direction)' % (d, d), 'NurbsCurve::%s (C17)' % f}
    before = c.val(s.lv)
    if what == 'insert':
        c.call('NurbsSurface::insert_knot_' + d, s.lv, [t])
    else:
        with c.under(a.p >= 3):
            c.ensure('refused above degree two', Not(c.call('NurbsSurface::degree_elevation_' + d, s.lv)))
            c.unchanged('refused: surface left alone', s.lv, before)
        calls['create'] = calls['from'] = 0
        c.assume(a.p <= 2)
        c.ensure('accepted up to degree two', c.call('NurbsSurface::degree_elevation_' + d, s.lv))
    c.ensure('taken apart once and put together once', z3.BoolVal(calls == {'create': 1, 'from': 1}))
    c.unchanged('nothing else is changed', s.lv, before)


for _d in 'uv':
    for _w in ('insert', 'elevate'):
        contract(P, '%s in the %s direction' % ('knot insertion' if _w == 'insert' else 'degree elevation', _d), SUR)(lambda c, d=_d, w=_w: refine(c, d, w))


@contract(P, 'setters leave no former state', SUR)
def _(c):
    s = Surface(c)
    q = s.lv
    get = lambda k, **kw: c.call('NurbsSurface::' + k, q, **kw)
    pts, ws = c.new('std::vector<Point3>', 'pts'), c.new('std::vector<double>', 'ws')
    n, m = c.int('n', 0), c.int('m', 0)
    c.assume(And(c.val(pts).len() == n * m, n * m < 2 ** 30, c.val(ws).len() >= 0))
    du, dv = c.int('du2', 0), c.int('dv2', 0)
    c.assume(And(du < 2 ** 20, dv < 2 ** 20))
    c.call('NurbsSurface::set_degree', q, [du, dv])
    c.call('NurbsSurface::set_points', q, [pts, n, m])
    c.call('NurbsSurface::set_weights', q, [ws])
    c.ensure('degrees', And(get('degree_u') == du, get('degree_v') == dv))
    c.ensure('grid', And(get('nb_points_u') == n, get('nb_points_v') == m))
    c.ensure('points', c.eq(get('points', const=True), c.val(pts)))
    c.ensure('weights', c.eq(get('weights', const=True), c.val(ws)))
    c.call('NurbsSurface::set_equals_weights', q)
    w = get('weights', const=True)
    c.ensure('one weight per point', w.len() == n * m)
    i = c.fresh_int('i', 0, n * m)
    c.ensure('equal weights are all 1', c.at(w, i) == 1)
    c.call('NurbsSurface::set_closed_u', q, [z3.Bool('cu2')])
    c.call('NurbsSurface::set_closed_v', q, [z3.Bool('cv2')])
    c.ensure('closed flags', And(get('is_closed_u') == z3.Bool('cu2'), get('is_closed_v') == z3.Bool('cv2')))
    c.call('NurbsSurface::clear', q)
    c.ensure('clear: degrees and grid', And(get('degree_u') == 0, get('degree_v') == 0, get('nb_points_u') == 0, get('nb_points_v') == 0))
    c.ensure('clear: knots, points and weights', And(*[x.len() == 0 for x in (get('knots_u'), get('knots_v'), get('points', const=True), get('weights', const=True))]))
    c.ensure('clear: closed flags', Not(Or(get('is_closed_u'), get('is_closed_v'))))


@contract(P, 'representation of a surface', SUR)
def _(c):
    s = Surface(c)
    c.ex.used_contracts.add('representation invariant of NurbsSurface (sizes of the scratch buffers) assumed by evaluate')
    du, dv = c.int('du2', 0), c.int('dv2', 0)
    c.assume(And(du < 2 ** 20, dv < 2 ** 20))
    c.call('NurbsSurface::set_degree', s.lv, [du, dv])
    f = c.val(s.lv).f
    c.ensure('scratch buffers', And(f['_tempPointsU'].len() >= du + 1, f['_tempWeightsU'].len() >= du + 1, f['_tempPointsV'].len() >= dv + 1, f['_tempWeightsV'].len() >= dv + 1))
