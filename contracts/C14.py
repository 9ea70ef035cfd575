from .common import *
P = 'C14'
SRC = MESH + ['BezierUtil.cpp', 'QuadBezierTriangle.cpp', 'CubicBezierTriangles.cpp']


@contract(P, 'Bernstein polynomials', SRC)
def _(c):
    u = c.real('u')
    from math import comb
    for deg in (1, 2, 3):
        s = z3.RealVal(0)
        for i in range(deg + 1):
            b = c.call('BezierUtil::Bernstein%d%d' % (i, deg), None, [u])
            t = z3.RealVal(comb(deg, i))
            for _ in range(i):
                t = t * u
            for _ in range(deg - i):
                t = t * (1 - u)
            c.ensure('B%d,%d is binomial' % (i, deg), b == t)
            s = s + b
        c.ensure('degree %d sums to one' % deg, s == 1)
    c.ensure('square', c.call('BezierUtil::square', None, [u]) == u * u)
    c.ensure('cubic', c.call('BezierUtil::cubic', None, [u]) == u * u * u)


NAMES = ('P1', 'P2', 'P3', 'C12', 'C13', 'C23')


def patch(c, weights=True, name=''):
    q = c.construct('QuadBezierTriangle')
    o = {n: pt(c, n + name) for n in NAMES}
    w = {n: c.real('w' + n + name) for n in NAMES}
    c.call('QuadBezierTriangle::set_points', q, [o[n][0] for n in NAMES[:3]])
    c.call('QuadBezierTriangle::set_control_points', q, [o[n][0] for n in NAMES[3:]])
    if weights:
        c.call('QuadBezierTriangle::set_weights', q, [w[n] for n in NAMES])
    else:
        w = {n: z3.RealVal(1) for n in NAMES}
    return q, {n: o[n][1] for n in NAMES}, w


def basis(s, u, v):
    return dict(P1=s * s, P2=u * u, P3=v * v, C12=2 * s * u, C13=2 * s * v, C23=2 * u * v)


def rational(p, w, s, u, v):
    b = basis(s, u, v)
    den = sum((w[n] * b[n] for n in NAMES), z3.RealVal(0))
    num = V(0, 0, 0)
    for n in NAMES:
        num = num + p[n] * (w[n] * b[n])
    return num, den


def evaluate(c, q, s, u, v=None):
    return V.of(c.call('QuadBezierTriangle::eval', q, [s, u, z3.RealVal(-1) if v is None else v]))


def inside(c):
    s, u = c.real('s'), c.real('u')
    c.assume(And(s >= 0, u >= 0, s + u <= 1))
    return s, u, 1 - s - u


@contract(P, 'value of a quadratic patch', SRC)
def _(c):
    q, p, w = patch(c)
    before = c.val(q)
    s, u, v = inside(c)
    num, den = rational(p, w, s, u, v)
    c.assume(den != 0)
    for label, r in (('third coordinate given', evaluate(c, q, s, u, v)), ('third coordinate computed', evaluate(c, q, s, u))):
        c.ensure('rational Bezier value, ' + label, And(*[x * den == y for x, y in zip(r, num)]))
    c.unchanged('evaluation leaves the patch alone', q, before)
    # corners
    for n, (a, b, d) in (('P1', (1, 0, 0)), ('P2', (0, 1, 0)), ('P3', (0, 0, 1))):
        with c.under(w[n] != 0):
            r = evaluate(c, q, z3.RealVal(a), z3.RealVal(b), z3.RealVal(d))
            c.ensure('passes through ' + n, r.eq(p[n]))


@contract(P, 'planes are reproduced', SRC)
def _(c):
    q, p, w = patch(c)
    s, u, v = inside(c)
    n, d = V(c.real('nx'), c.real('ny'), c.real('nz')), c.real('d')
    for k in NAMES:
        c.assume(n.dot(p[k]) == d)
    num, den = rational(p, w, s, u, v)
    c.assume(den != 0)
    r = evaluate(c, q, s, u)
    c.lemma('rational value', And(*[x * den == y for x, y in zip(r, num)]))
    c.lemma('numerator', n.dot(num) == d * den)
    c.ensure('a patch with its points in a plane stays in it', n.dot(r) * den == d * den)


@contract(P, 'affine dependence on the points', SRC)
def _(c):
    q, p, w = patch(c)
    s, u, v = inside(c)
    A = [[c.real('a%d%d' % (i, j)) for j in range(3)] for i in range(3)]
    t = [c.real('t%d' % i) for i in range(3)]
    img = lambda x: V(*[A[i][0] * x.x + A[i][1] * x.y + A[i][2] * x.z + t[i] for i in range(3)])
    q2 = c.construct('QuadBezierTriangle')
    o = {n: c.obj(mkpt(c, *img(p[n]))) for n in NAMES}
    c.call('QuadBezierTriangle::set_points', q2, [o[n] for n in NAMES[:3]])
    c.call('QuadBezierTriangle::set_control_points', q2, [o[n] for n in NAMES[3:]])
    c.call('QuadBezierTriangle::set_weights', q2, [w[n] for n in NAMES])
    num, den = rational(p, w, s, u, v)
    c.assume(den != 0)
    a, b = evaluate(c, q, s, u), evaluate(c, q2, s, u)
    c.ensure('moving the points moves the patch', And(*[x * den == y * den for x, y in zip(b, img(a))]))


@contract(P, 'boundary curves', SRC)
def _(c):
    for side, zero, (x, y, xy) in (('P1P2', 'v', ('P1', 'P2', 'C12')), ('P1P3', 'u', ('P1', 'P3', 'C13')), ('P2P3', 's', ('P2', 'P3', 'C23'))):
        q, p, w = patch(c, name=side)
        t = c.real('t' + side)
        a, b = t, 1 - t
        par = {'v': (a, b, z3.RealVal(0)), 'u': (a, z3.RealVal(0), b), 's': (z3.RealVal(0), a, b)}[zero]
        den = w[x] * a * a + w[y] * b * b + 2 * w[xy] * a * b
        num = p[x] * (w[x] * a * a) + p[y] * (w[y] * b * b) + p[xy] * (2 * w[xy] * a * b)
        with c.under(den != 0):
            r = evaluate(c, q, *par)
            c.ensure('side %s is the rational quadratic of its own three points' % side, And(*[m * den == k for m, k in zip(r, num)]))


@contract(P, 'flat patch', SRC)
def _(c):
    q = c.construct('QuadBezierTriangle')
    o = [pt(c, n) for n in 'abd']
    c.call('QuadBezierTriangle::set_points', q, [x for x, _ in o])
    s, u, v = inside(c)
    a, b, d = [x for _, x in o]
    r = evaluate(c, q, s, u)
    c.ensure('a patch given by its corners only is the flat triangle', r.eq(a * s + b * u + d * v))


@contract(P, 'cubic patch from normals', SRC)
def _(c):
    q = c.construct('CubicBezierTriangles')
    o = [pt(c, n) for n in ('P1', 'P2', 'P3')]
    n = [pt(c, x) for x in ('n1', 'n2', 'n3')]
    for _, x in n:
        c.assume(x.n2() == 1)
    c.call('CubicBezierTriangles::set_points', q, [x for x, _ in o])
    c.call('CubicBezierTriangles::set_normals', q, [x for x, _ in n])
    f = lambda k: V.of(c.val(q).f[k])
    p = [x for _, x in o]
    n = [x for _, x in n]
    six = []
    for i in range(3):
        c.ensure('corner %d kept' % (i + 1), f('_P%d' % (i + 1)).eq(p[i]))
        for j in range(3):
            if i != j:
                k = f('_controlP%dP%d' % (i + 1, j + 1))
                six.append(k)
                c.ensure('control point %d%d lies in the tangent plane at corner %d' % (i + 1, j + 1, i + 1), (k - p[i]).dot(n[i]) == 0)
                third = (p[i] * 2 + p[j]) / 3
                c.ensure('control point %d%d is the foot of the third point' % (i + 1, j + 1), (k - third).cross(n[i]).eq(V(0, 0, 0)))
    E = six[0]
    for k in six[1:]:
        E = E + k
    E = E / 6
    c.ensure('centre', f('_controlCenter').eq(E + (E - (p[0] + p[1] + p[2]) / 3) / 2))


# ------------------------------------------------------------------ meshing a quadratic patch
@contract(P, 'meshing a quadratic patch', SRC)
def _(c):
    q = c.new('QuadBezierTriangle', 'q')
    m = Mesh_(c, 'm')
    n = c.int('n', 1)
    c.assume(n < 2 ** 12)
    ex = c.ex
    with quiet(c):
        base, nt0 = m.nv(), m.nt()
    FN = 'QuadBezierTriangle::add_to_mesh'
    B = lambda f: If(f, I(1), I(0))
    POS = [z3.Function('patch_' + x, z3.RealSort(), z3.RealSort(), z3.RealSort()) for x in 'xyz']

    def ev(ex, this, args, fn):
        # contract of eval: a function of the parameters (proved above: which one)
        if not (z3.is_rational_value(args[2]) and args[2].as_fraction() == -1):
            raise Unsupported('eval with an explicit third parameter')
        return mkpt(c, *[f(realv(args[0]), realv(args[1])) for f in POS])
    ex.handlers[c.fn('QuadBezierTriangle::eval').mangled] = ev
    ex.used_contracts.add('QuadBezierTriangle::eval (a function of the parameters: value of a quadratic patch)')
    ROW = z3.Function('row_start', z3.IntSort(), z3.IntSort())

    def rows(i):
        c.assume(And(ROW(I(0)) == 0, ROW(i + 1) == ROW(i) + n - i + 1))     # definition: rows have n+1, n, n-1, ... vertices
    # an arbitrary parameter node
    i0, u0 = c.fresh_int('i0', 0, n + 1), c.fresh_int('u0', 0, n + 1)
    c.assume(i0 + u0 <= n)
    rows(i0)
    # an arbitrary cell of the parameter grid
    a0, b0 = c.fresh_int('a0', 0, n), c.fresh_int('b0', 0, n)
    upc = z3.Bool('first_half')
    c.assume(And(a0 + b0 < n, Or(upc, b0 >= 1)))
    hit, cnt = c.obj(I(0), 'hit'), c.obj(I(0), 'cnt')

    def node(L):
        done = lambda: m.vert(base + ROW(i0) + u0).eq(V(*[f(realv(i0) / realv(n), realv(u0) / realv(n)) for f in POS]))
        return done

    def inv0(L):
        i = L['is']
        rows(i)
        return [('range', And(0 <= i, i <= n + 1)), ('vertices so far', And(m.nv() == base + ROW(i), m.nt() == nt0)),
                ('rows are disjoint', And(Implies(i0 < i, ROW(i0) + n - i0 + 1 <= ROW(i)), ROW(i) >= 0)),
                ('node at its place', Implies(i0 < i, node(L)()))]

    def inv1(L):
        i, u = L['is'], L['iu']
        return [('range', And(0 <= u, u <= n - i + 1)), ('vertices so far', And(m.nv() == base + ROW(i) + u, m.nt() == nt0)),
                ('node at its place', Implies(Or(i0 < i, And(i0 == i, u0 < u)), node(L)()))]

    def add(ex, this, args, fn):
        i = frame_var(c, FN, 'is')
        ls = n - i + 1
        cells = []
        for v in args:
            o = v - (base + ROW(i))
            if not ex.quiet:
                c.ensure('a corner of this or the next row', And(o >= 0, o < ls + ls - 1))
            cells.append((If(o < ls, i, i + 1), If(o < ls, o, o - ls)))
        forms = []
        for k in range(3):
            for r in (1, -1):
                (p, s), (p1, s1), (p2, s2) = [cells[(k + r * j) % 3] for j in range(3)]
                up = And(p1 == p, s1 == s + 1, p2 == p + 1, s2 == s)
                dn = And(p1 == p + 1, s1 == s, p2 == p + 1, s2 == s - 1)
                forms.append((r, up, dn, p, s))
        if not ex.quiet:
            c.ensure('a cell of the parameter grid', Or(*[Or(And(up, p + s < n, p >= 0, s >= 0), And(dn, p + s < n, s >= 1)) for r, up, dn, p, s in forms]))
            if not turns:       # the orientation of the first one met is the orientation of all
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add([t for _, t in ex.st.pc])
                s.add(Not(Or(*[Or(up, dn) for r, up, dn, p, s_ in forms if r == 1])))
                turns.append(1 if s.check() == z3.unsat else -1)
            c.ensure('oriented as the others', Or(*[Or(up, dn) for r, up, dn, p, s in forms if r == turns[0]]))
        ex.wr(hit, ex.rd(hit) + B(Or(*[And(If(upc, up, dn), p == a0, s == b0) for r, up, dn, p, s in forms])))
        ex.wr(cnt, ex.rd(cnt) + 1)
        return nt0 + ex.rd(cnt) - 1
    turns = []
    ex.handlers[c.fn('Mesh::add_triangle', ['int', 'int', 'int']).mangled] = add
    ex.used_contracts.add('Mesh::add_triangle(int, int, int) (appends one live triangle over these vertices, nothing else: C08)')
    frame = lambda: ('all nodes made', And(m.nv() == base + ROW(n + 1), node(None)()))

    def inv2(L):
        i = L['is']
        rows(i)
        return [('range', And(0 <= i, i <= n)), ('first vertex of the row', L['pos'] == base + ROW(i)), frame(),
                ('count', ex.rd(cnt) == 2 * n * i - i * i), ('cells of the rows done', ex.rd(hit) == B(a0 < i))]

    def before(L, x):
        save = ex.st
        ex.st = L.base
        try:
            return ex.rd(x)
        finally:
            ex.st = save

    def inv3(L):
        i, u = L['is'], L['iu']
        return [('range', And(1 <= u, u <= n - i)), ('count', ex.rd(cnt) == before(L, cnt) + 2 * (u - 1)),
                ('cells of this row so far', ex.rd(hit) == before(L, hit) + B(And(a0 == i, b0 >= 1, b0 < u)))]
    for i, f in enumerate((inv0, inv1, inv2, inv3)):
        c.loop_inv(FN, i, f)
    c.call(FN, q, [m.lv, n])
    c.ensure('every cell exactly once', ex.rd(hit) == 1)
    c.ensure('n*n triangles', ex.rd(cnt) == n * n)
    c.ensure('every node of the parameter triangle is a vertex of the patch', node(None)())


@contract(P, 'meshing every patch', SRC + ['SmoothMesh.cpp'])
def _(c):
    ex = c.ex
    s = c.construct('SmoothMesh')
    v = c.val(s)
    ps = c.sym('std::vector<QuadBezierTriangle>', 'patches')
    c.assume(ps.len() < 2 ** 30)
    ex.wr(s, type(v)(v.cls, dict(v.f, _vst=ps)))
    before = c.val(s)
    m = Mesh_(c, 'm')
    n = c.int('n', 1)
    cnt = c.obj(I(0), 'cnt')

    def one(ex, this, args, fn):
        k = ex.rd(cnt)
        if not ex.quiet:
            c.ensure('the next patch', And(k < ps.len(), c.eq(ex.rd(this) if not isinstance(this, Struct) else this, c.at(ps, k))))
            c.ensure('in as many segments as asked for', args[1] == n)
            c.ensure('into the mesh given', z3.BoolVal(args[0] is m.lv or args[0] == m.lv))
        ex.wr(cnt, k + 1)
    ex.handlers[c.fn('QuadBezierTriangle::add_to_mesh').mangled] = one
    ex.used_contracts.add('QuadBezierTriangle::add_to_mesh (meshing a quadratic patch)')
    c.loop_inv('SmoothMesh::add_to_mesh', 0, lambda L: [('patches so far', And(0 <= L['i'], L['i'] <= ps.len(), ex.rd(cnt) == L['i']))])
    c.call('SmoothMesh::add_to_mesh', s, [m.lv, n])
    c.ensure('every patch once, in order', ex.rd(cnt) == ps.len())
    c.unchanged('the patches stay', s, before)


@contract(P, 'control points of a cubic patch', SRC)
def _(c):
    q = c.construct('CubicBezierTriangles')
    o = [pt(c, n) for n in ('P1', 'P2', 'P3')]
    k = [pt(c, 'k%d' % i) for i in range(6)]
    z, vz = pt(c, 'z')
    c.call('CubicBezierTriangles::set_points', q, [x for x, _ in o])
    c.call('CubicBezierTriangles::set_control_points', q, [x for x, _ in k])
    c.call('CubicBezierTriangles::set_control_center', q, [z])
    f = c.val(q).f
    for (_, v), n in zip(o + k + [(z, vz)], ('_P1', '_P2', '_P3', '_controlP1P2', '_controlP2P1', '_controlP1P3', '_controlP3P1', '_controlP2P3', '_controlP3P2', '_controlCenter')):
        c.ensure('%s stored' % n, V.of(f[n]).eq(v))
