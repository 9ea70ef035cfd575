from .spline import *
P = 'C20'
FAC = SUR + ['NurbsFactory.cpp', 'NurbsSolid.cpp', 'NurbsRuled.cpp', 'NurbsRevolve.cpp', 'NurbsUtil.cpp']


def sqrt2(c):
    s = SQRT(R(2))
    c.assume(And(s > 0, s * s == 2))
    return s


def num(x):
    x = z3.simplify(x) if is_term(x) else x
    return x if isinstance(x, int) else x.as_long() if z3.is_int_value(x) else None


class Grid:
    """what the accessors of a surface or curve with concrete sizes report, and the point they describe at (u,v):
    the tensor-product rational B-spline (C16, C18), as homogeneous polynomials on each pair of knot spans"""

    def __init__(self, c, lv, cls='NurbsSurface', get=None):
        self.c, self.cls, self.lv = c, cls, lv
        g = lambda k, **kw: c.call(cls + '::' + k, lv, **kw)
        if cls == 'NurbsSurface':
            self.d = [g('degree_u'), g('degree_v')]
            self.n = [g('nb_points_u'), g('nb_points_v')]
            self.k = [g('knots_u'), g('knots_v')]
        else:
            self.d, self.n, self.k = [g('degree')], [g('nb_points')], [g('knots')]
        self.w, self.p = g('weights', const=True), g('points', const=True)
        if cls == 'NurbsSurface':
            self.closed = [g('is_closed_u'), g('is_closed_v')]
        self.d, self.n = [num(x) for x in self.d], [num(x) for x in self.n]

    def sizes(self, label=''):
        """the size relations evaluation needs; False when the rest cannot be stated"""
        c = self.c
        N = 1
        for x in self.n:
            N = N * x
        ok = And(self.p.len() == N, self.w.len() == N, *[k.len() == n + d + 1 for k, n, d in zip(self.k, self.n, self.d)])
        c.ensure(label + 'as many points, weights and knots as degree and counts require', ok)
        self.U = []
        for x, (k, n, d) in enumerate(zip(self.k, self.n, self.d)):
            v = [z3.simplify(c.at(k, i)) for i in range(n + d + 1)]
            c.ensure(label + 'knots %d clamped, sorted and spanning [0,1]' % x, And(*([v[i] == 0 for i in range(d + 1)] + [v[-1 - i] == 1 for i in range(d + 1)] + [v[i] <= v[i + 1] for i in range(n + d)])))
            self.U.append(v)
        self.W = [c.at(self.w, i) for i in range(N)]
        self.Q = [V.of(c.at(self.p, i)) for i in range(N)]
        c.ensure(label + 'weights are positive', And(*[w > 0 for w in self.W]))

    def spans(self, x):
        v, d, n = self.U[x], self.d[x], self.n[x]
        return [i for i in range(d, n) if num_lt(v[i], v[i + 1])]

    def at(self, *uv):
        """[(span label, (X,Y,Z,W))] for the given parameters"""
        out = []
        import itertools
        for ab in itertools.product(*[self.spans(x) for x in range(len(self.d))]):
            B = [basis_on(lambda o, a=a, x=x: self.U[x][a + o], t, self.d[x]) for x, (a, t) in enumerate(zip(ab, uv))]
            X = V(R(0), R(0), R(0))
            w = R(0)
            for os in itertools.product(*[sorted(b) for b in B]):
                i = ab[0] + os[0]
                if len(ab) == 2:
                    i = i + self.n[0] * (ab[1] + os[1])
                f = self.W[i]
                for b, o in zip(B, os):
                    f = f * b[o]
                X, w = X + self.Q[i] * f, w + f
            out.append(('span ' + ','.join(str(a) for a in ab), X, w))
        return out

    def corner(self, *ab):
        """the point at a corner of the parameter domain: a clamped spline passes through its end point (C16)"""
        i = ab[0] * (self.n[0] - 1)
        if len(ab) == 2:
            i = i + self.n[0] * ab[1] * (self.n[1] - 1)
        return self.Q[i]


def num_lt(a, b):
    return z3.is_true(z3.simplify(a < b))


def used(c, name='old'):
    """a surface that was used for something else before"""
    return Surface(c, name).lv


def radius(c, name):
    r = c.real(name)
    c.assume(r > 0)
    return r


@contract(P, 'circle', FAC)
def _(c):
    sqrt2(c)
    r, u = radius(c, 'r'), c.real('u')
    nc = any_curve(c, 'old').lv
    c.call('NurbsFactory::create_circle', None, [r, nc])
    g = Grid(c, nc, 'NurbsCurve')
    g.sizes()
    for s, X, w in g.at(u):
        c.ensure(s + ': in the plane z = 0', X.z == 0)
        c.ensure(s + ': at the radius from the centre', X.x * X.x + X.y * X.y == r * r * w * w)
    c.ensure('closed', V.of(g.corner(0)).eq(g.corner(1)))


def disk(c, g, r, z, l=''):
    u, v = c.real(l + 'u'), c.real(l + 'v')
    for s, X, w in g.at(u, v):
        c.ensure(l + s + ': in its plane', X.z == z * w)
        c.ensure(l + s + ': at the fraction v of the radius from the axis', X.x * X.x + X.y * X.y == v * v * r * r * w * w)


@contract(P, 'disk', FAC)
def _(c):
    sqrt2(c)
    r = radius(c, 'r')
    ns = used(c)
    c.call('NurbsFactory::create_disk', None, [r, ns])
    g = Grid(c, ns)
    g.sizes()
    disk(c, g, r, 0)
    c.ensure('closed around the centre', g.closed[0])
    with c.under(r >= R(1) / 1000):
        c.ensure('open along the radius', Not(g.closed[1]))


def sphere(c, g, r):
    u, v = c.real('u'), c.real('v')
    for s, X, w in g.at(u, v):
        c.ensure(s + ': at the radius from the centre', X.x * X.x + X.y * X.y + X.z * X.z == r * r * w * w)
    c.ensure('poles', And(g.corner(0, 0).eq(V(R(0), R(0), -r)), g.corner(0, 1).eq(V(R(0), R(0), r))))
    c.ensure('closed around the axis', g.closed[0])
    with c.under(r >= R(1) / 1000):
        c.ensure('open from pole to pole', Not(g.closed[1]))


@contract(P, 'sphere', FAC)
def _(c):
    sqrt2(c)
    r = radius(c, 'r')
    ns = used(c)
    c.call('NurbsFactory::create_sphere', None, [r, ns], params=['double', 'NurbsSurface &'])
    g = Grid(c, ns)
    g.sizes()
    sphere(c, g, r)


def torus(c, g, M, m):
    u, v = c.real('u'), c.real('v')
    for s, X, w in g.at(u, v):
        d2 = X.x * X.x + X.y * X.y
        q = d2 + X.z * X.z + (M * M - m * m) * w * w
        c.ensure(s + ': at the minor radius from the ring', q * q == 4 * M * M * w * w * d2)
    c.ensure('closed both ways', And(g.closed[0], g.closed[1]))


@contract(P, 'torus', FAC)
def _(c):
    sqrt2(c)
    M, m = radius(c, 'R'), radius(c, 'r')
    ns = used(c)
    c.call('NurbsFactory::create_torus', None, [M, m, ns], params=['double', 'double', 'NurbsSurface &'])
    g = Grid(c, ns)
    g.sizes()
    torus(c, g, M, m)


def old_solid(c):
    n = c.construct('NurbsSolid')
    c.call('NurbsSolid::add_surface', n, [used(c, 'older')])
    return n


def faces(c, n):
    """the surfaces of a solid"""
    s = c.call('NurbsSolid::surfaces', n, const=True)
    k = num(s.len())
    out = []
    for i in range(k):
        lv = c.construct('NurbsSurface')
        c.ex.wr(lv, c.at(s, i))
        out.append(Grid(c, lv))
    return out


@contract(P, 'sphere and torus solids', FAC)
def _(c):
    sqrt2(c)
    r, M, m = radius(c, 'r'), radius(c, 'R'), radius(c, 'm')
    n = old_solid(c)
    c.call('NurbsFactory::create_sphere', None, [r, n], params=['double', 'NurbsSolid &'])
    f = faces(c, n)
    c.ensure('sphere: one surface', len(f) == 1)
    f[0].sizes('sphere ')
    sphere(c, f[0], r)
    n = old_solid(c)
    c.call('NurbsFactory::create_torus', None, [M, m, n], params=['double', 'double', 'NurbsSolid &'])
    f = faces(c, n)
    c.ensure('torus: one surface', len(f) == 1)
    f[0].sizes('torus ')
    torus(c, f[0], M, m)


@contract(P, 'cylinder', FAC)
def _(c):
    sqrt2(c)
    r, h = radius(c, 'r'), radius(c, 'h')
    n = old_solid(c)
    c.call('NurbsFactory::create_cylinder', None, [r, h, n])
    f = faces(c, n)
    c.ensure('three surfaces', len(f) == 3)
    for i, g in enumerate(f):
        g.sizes('surface %d ' % i)
    disk(c, f[0], r, -h / 2, 'bottom ')
    disk(c, f[2], r, h / 2, 'top ')
    u, v = c.real('u'), c.real('v')
    for s, X, w in f[1].at(u, v):
        c.ensure('side ' + s + ': at the radius from the axis', X.x * X.x + X.y * X.y == r * r * w * w)
        c.ensure('side ' + s + ': from the bottom to the top', X.z == (v - R(1) / 2) * h * w)


# ------------------------------------------------------------------ polygons
def bilinear(c, g, p, l=''):
    """the quad p[0..3]: corners in order around the parameter square, straight-line blends in between"""
    for k, ab in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
        c.ensure(l + 'corner %d' % (k + 1), g.corner(*ab).eq(p[k]))
    u, v = c.real(l + 'u'), c.real(l + 'v')
    for s, X, w in g.at(u, v):
        c.ensure(l + s + ': blend of the corners', X.eq((p[0] * ((1 - u) * (1 - v)) + p[1] * (u * (1 - v)) + p[2] * (u * v) + p[3] * ((1 - u) * v)) * w))


@contract(P, 'quad', FAC)
def _(c):
    ps = [pt(c, 'p%d' % k) for k in range(4)]
    ns = used(c)
    c.call('NurbsFactory::create_quad', None, [p[0] for p in ps] + [ns])
    g = Grid(c, ns)
    g.sizes()
    bilinear(c, g, [p[1] for p in ps])
    for k, p in enumerate(ps):
        c.ensure('corner %d is only read' % k, V.of(c.val(p[0])).eq(p[1]))


@contract(P, 'triangle', FAC)
def _(c):
    ps = [pt(c, 'p%d' % k) for k in range(3)]
    ns = used(c)
    c.call('NurbsFactory::create_triangle', None, [p[0] for p in ps] + [ns])
    g = Grid(c, ns)
    g.sizes()
    a, b, d = [p[1] for p in ps]
    for k, (ab, x) in enumerate((((0, 0), a), ((1, 0), b), ((1, 1), d), ((0, 1), d))):
        c.ensure('corner %d' % (k + 1), g.corner(*ab).eq(x))
    # every point is a combination of the corners with non-negative parts
    u, v = c.real('u'), c.real('v')
    for s, X, w in g.at(u, v):
        c.ensure(s + ': blend of the corners', X.eq((a * ((1 - u) * (1 - v)) + b * (u * (1 - v)) + d * v) * w))


@contract(P, 'box', FAC)
def _(c):
    S = [radius(c, 's' + x) for x in 'xyz']
    n = old_solid(c)
    c.call('NurbsFactory::create_box', None, S + [n])
    f = faces(c, n)
    c.ensure('six faces', len(f) == 6)
    sub = [(s, z3.RealVal(2 * 10 ** k)) for k, s in enumerate(S)]
    edges, seen = {}, set()
    for k, g in enumerate(f):
        g.sizes('face %d ' % k)
        q = [g.corner(*ab) for ab in ((0, 0), (1, 0), (1, 1), (0, 1))]
        sg = []
        for x in q:
            t = [z3.simplify(z3.substitute(e, *sub)) for e in x]
            sg.append(tuple(1 if num_lt(R(0), e) else -1 for e in t))
        bilinear(c, g, [V(*[s * e / 2 for s, e in zip(S, t)]) for t in sg], 'face %d ' % k)
        const = [i for i in range(3) if len({t[i] for t in sg}) == 1]
        c.ensure('face %d is one side of the box' % k, z3.BoolVal(len(const) == 1 and len(set(sg)) == 4))
        seen |= {(i, sg[0][i]) for i in const}
        for i in range(4):
            e = (sg[i], sg[(i + 1) % 4])
            edges[e] = edges.get(e, 0) + 1
            c.ensure('face %d edge %d is an edge of the box' % (k, i), z3.BoolVal(sum(a != b for a, b in zip(*e)) == 1))
        if len(const) == 1:
            a, b, d = [V(*[R(x) for x in t]) for t in sg[:3]]
            c.ensure('face %d turns outward' % k, (b - a).cross(d - a).dot(a) > 0)
    c.ensure('the six sides', z3.BoolVal(len(seen) == 6))
    c.ensure('each edge is used once each way', z3.BoolVal(len(edges) == 24 and all(m == 1 and (b, a) in edges for (a, b), m in edges.items())))


@contract(P, 'curve from points', FAC)
def _(c):
    d, n = c.int('degree', 0), c.int('n', 1)
    c.assume(And(d < n, n < 2 ** 20))
    ps = c.sym('std::vector<Point3>', 'ps')
    c.assume(ps.len() == n)
    lv = c.obj(ps)
    q = any_curve(c, 'old').lv
    for cls in ('NurbsSurface', 'NurbsCurve'):
        c.ex.handlers[c.fn(cls + '::scale_knots').mangled] = lambda ex, this, args, fn: None
    c.ex.used_contracts.add('NurbsCurve::scale_knots (the affine image onto [0,1]: C15; here left out: the knots are read before it)')
    c.call('NurbsFactory::create_curve_from_points', None, [lv, d, q])
    g = lambda k, **kw: c.call('NurbsCurve::' + k, q, **kw)
    c.ensure('degree', g('degree') == d)
    c.ensure('points', c.eq(g('points', const=True), ps))
    w, k = g('weights', const=True), g('knots')
    c.ensure('as many weights as points', w.len() == n)
    i = c.fresh_int('i', 0, n)
    c.ensure('equal weights', c.at(w, i) == 1)
    c.ensure('as many knots as degree and points require', k.len() == n + d + 1)
    j = c.fresh_int('j', 0, n + d)
    c.ensure('clamped at the start', Implies(j <= d, c.at(k, j) == 0))
    c.ensure('clamped at the end', Implies(j >= n, c.at(k, j + 1) == c.at(k, n)))
    c.ensure('equally spaced between', Implies(And(j >= d, j < n), c.at(k, j + 1) == c.at(k, j) + 1))
    c.unchanged('the points are only read', lv, ps)
