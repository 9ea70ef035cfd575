from .spline import *
P = 'C19'
SWEEP = SUR + ['NurbsExtrude.cpp', 'NurbsRuled.cpp', 'NurbsRevolve.cpp', 'NurbsUtil.cpp']


def normalised_knots(c):
    for cls in ('NurbsSurface', 'NurbsCurve'):
        c.ex.handlers[c.fn(cls + '::scale_knots').mangled] = lambda ex, this, args, fn: None
        c.ex.used_contracts.add(cls + '::scale_knots (the affine image onto [0,1], the identity on knots that span it: C15)')


def getters(c, ns):
    g = lambda k, **kw: c.call('NurbsSurface::' + k, ns, **kw)
    return dict(du=g('degree_u'), dv=g('degree_v'), ku=g('knots_u'), kv=g('knots_v'), nu=g('nb_points_u'), nv=g('nb_points_v'),
                w=g('weights', const=True), p=g('points', const=True), cu=g('is_closed_u'), cv=g('is_closed_v'))


def lit_knots(c, label, k, want):
    c.ensure(label, And(k.len() == len(want), *[c.at(k, i) == R(v) for i, v in enumerate(want)]))


def closed(c, q):
    return c.call('NurbsCurve::is_closed', q.lv, [z3.RealVal('1e-6')])


def swept(c, g, q, second):
    """the grid is the curve's line and a second line of points and weights"""
    n = q.n
    c.ensure('degrees', And(g['du'] == q.p, g['dv'] == 1))
    c.ensure('knots along the curve', c.eq(g['ku'], q.kv))
    lit_knots(c, 'knots across', g['kv'], (0, 0, 1, 1))
    c.ensure('counts', And(g['nu'] == n, g['nv'] == 2, g['p'].len() == 2 * n, g['w'].len() == 2 * n))
    i = c.fresh_int('i', 0, n)
    x, w = second(i)
    c.ensure('first line', And(V.of(c.at(g['p'], i)).eq(q.P(i)), c.at(g['w'], i) == q.w(i)))
    c.ensure('second line', And(V.of(c.at(g['p'], n + i)).eq(x), c.at(g['w'], n + i) == w))


@contract(P, 'extrusion', SWEEP)
def _(c):
    q = any_curve(c)
    normalised_knots(c)
    d, dv = pt(c, 'dir')
    ns = Surface(c, 'old').lv
    before = c.val(q.lv)
    e = c.construct('NurbsExtrude')
    cl = closed(c, q)
    c.ensure('succeeds', c.call('NurbsExtrude::extrude', e, [q.lv, d, ns]))
    g = getters(c, ns)
    swept(c, g, q, lambda i: (q.P(i) + dv, q.w(i)))
    c.ensure('closed like the curve', And(g['cu'] == cl, Not(g['cv'])))
    c.unchanged('the curve is left alone', q.lv, before)


@contract(P, 'ruled surface', SWEEP)
def _(c):
    q = any_curve(c)
    q2 = Curve(c, 'r', q.p, q.n, q.kv)
    normalised_knots(c)
    ns = Surface(c, 'old').lv
    before = c.val(q.lv), c.val(q2.lv)
    e = c.construct('NurbsRuled')
    cl = And(closed(c, q), closed(c, q2))
    c.ensure('succeeds', c.call('NurbsRuled::create_ruled', e, [q.lv, q2.lv, ns]))
    g = getters(c, ns)
    swept(c, g, q, lambda i: (q2.P(i), q2.w(i)))
    c.ensure('closed like both curves', And(g['cu'] == cl, Not(g['cv'])))
    c.unchanged('the first curve is left alone', q.lv, before[0])
    c.unchanged('the second curve is left alone', q2.lv, before[1])


def lines(c):
    """homogeneous points of the two lines at one parameter u"""
    v = lambda n: (V(*[c.real(n + x) for x in 'xyz']), c.real(n + 'w'))
    return v('a'), v('b'), c.real('v')


@contract(P, 'what such a grid describes', SWEEP)
def _(c):
    # degree 1 across on the knots 0,0,1,1: the recursion of C18 blends the two lines
    (a, wa), (b, wb), t = lines(c)
    N = basis_on(lambda o: R({-1: 0, 0: 0, 1: 1, 2: 1}[o]), t, 1)
    mix = lambda x, y: x * N[-1] + y * N[0]
    c.ensure('straight-line blend by weight', And(mix(a, b).eq(a * (1 - t) + b * t), mix(wa, wb) == wa * (1 - t) + wb * t))
    # an extrusion: the second line is the first one moved: by induction over the levels (C16, affine maps) also at u
    d = V(*[c.real('d' + x) for x in 'xyz'])
    al = c.real('alpha')
    (p, wp), (q, wq) = (a, wa), (b, wb)
    step = lambda x, y: x * (1 - al) + y * al
    mv = lambda x, w: x + d * w
    c.ensure('level: moving the points moves the value', step(mv(p, wp), mv(q, wq)).eq(mv(step(p, q), step(wp, wq))))
    with c.under(wa != 0):
        x = mix(a, mv(a, wa)) / mix(wa, wa)
        c.ensure('moved in proportion to the second parameter', And(*[m * wa == (n + k * t * wa) for m, n, k in zip(x, a, d)]))


# ------------------------------------------------------------------ revolution
KU = ('0', '0', '0', '1/4', '1/4', '1/2', '1/2', '3/4', '3/4', '1', '1', '1')
TURN = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (1, 0)]       # (cos, sin) part of the nine points


def half(c):
    s = SQRT(R(2))
    c.assume(And(s > 0, s * s == 2))
    return s


@contract(P, 'revolution', SWEEP)
def _(c):
    q = any_curve(c)
    normalised_knots(c)
    s2 = half(c)
    ns = Surface(c, 'old').lv
    before = c.val(q.lv)
    e = c.construct('NurbsRevolve')
    cl = closed(c, q)
    c.ensure('succeeds', c.call('NurbsRevolve::revolve', e, [q.lv, ns]))
    g = getters(c, ns)
    n = q.n
    c.ensure('degrees', And(g['du'] == 2, g['dv'] == q.p))
    c.ensure('knots of the profile', c.eq(g['kv'], q.kv))
    lit_knots(c, 'knots of the turn', g['ku'], KU)
    c.ensure('counts', And(g['nu'] == 9, g['nv'] == n, g['p'].len() == 9 * n, g['w'].len() == 9 * n))
    c.ensure('closed around the axis and like the profile', And(g['cu'], g['cv'] == cl))
    c.unchanged('the profile is left alone', q.lv, before)
    j = c.fresh_int('j', 0, n)
    x, w = q.P(j), q.w(j)
    for k, (co, si) in enumerate(TURN):
        y, v = V.of(c.at(g['p'], 9 * j + k)), c.at(g['w'], 9 * j + k)
        c.ensure('control point %d' % k, y.eq(V(x.x * co + x.y * si, x.y * co - x.x * si, x.z)))
        c.ensure('weight %d' % k, v * (s2 if k % 2 else 1) == w)


@contract(P, 'what a revolved grid describes', SWEEP)
def _(c):
    s2 = half(c)
    t = c.real('t')
    ku = [z3.RealVal(k) for k in KU]
    X, Y, Z, W = [c.real(x) for x in 'XYZW']      # the profile at v (homogeneous)
    for a in range(4):
        with c.under(ku[2 + 2 * a] <= t, t <= ku[3 + 2 * a]):
            N = basis_on(lambda o: ku[2 + 2 * a + o], t, 2)
            f = lambda i: 1 / s2 if i % 2 else R(1)
            co, si, e = [sum((N[o] * f(2 * a + 2 + o) * m(2 * a + 2 + o) for o in N), R(0)) for m in (lambda i: TURN[i][0], lambda i: TURN[i][1], lambda i: 1)]
            c.ensure('quarter %d: the weights stay positive' % a, e > 0)
            c.ensure('quarter %d: cosine and sine' % a, co * co + si * si == e * e)
            # along v the recursion is linear: the surface point is (co X + si Y, co Y - si X, e Z; e W)
    co, si, e = c.real('co'), c.real('si'), c.real('e')
    with c.under(co * co + si * si == e * e):
        x, y = co * X + si * Y, co * Y - si * X
        c.ensure('same distance to the axis', x * x + y * y == e * e * (X * X + Y * Y))
    al = c.real('alpha')
    X2, Y2 = c.real('X2'), c.real('Y2')
    c.ensure('level: turning commutes with the recursion', (co * X + si * Y) * (1 - al) + (co * X2 + si * Y2) * al == co * (X * (1 - al) + X2 * al) + si * (Y * (1 - al) + Y2 * al))
