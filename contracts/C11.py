from .common import *
P = 'C11'
SRC = MESH + ['MeshUtil.cpp', 'MeshTessellate.cpp', 'Image.cpp', 'ImageUtil.cpp']


def rot(t, a, b, c):
    return Or(And(t[0] == a, t[1] == b, t[2] == c), And(t[1] == a, t[2] == b, t[0] == c), And(t[2] == a, t[0] == b, t[1] == c))


def tiles_cell(t, u, A, B, C, D):
    """the two triangles are the cell ABCD cut along one of its diagonals, oriented as ABCD"""
    pair = lambda p, q: Or(And(rot(p, A, B, C), rot(q, C, D, A)), And(rot(p, B, C, D), rot(q, D, A, B)))
    return Or(pair(t, u), pair(u, t))


def grid(c, m, nx, ny, place):
    c.ensure('one vertex per sample', m.nv() == nx * ny)
    c.ensure('two triangles per cell', m.nt() == If(And(nx > 0, ny > 0), 2 * (nx - 1) * (ny - 1), 0))
    st = c.ex.st
    c.ex.st = st.copy()
    x, y = c.fresh_int('x', 0, nx), c.fresh_int('y', 0, ny)
    c.ensure('each vertex is the sample at its place', m.vert(x + nx * y).eq(place(x, y)))
    c.ex.st = st.copy()
    x, y = c.fresh_int('x', 0, nx - 1), c.fresh_int('y', 0, ny - 1)
    k = 2 * (x + (nx - 1) * y)
    A = x + nx * y
    c.ensure('the two triangles of each cell tile it, facing up', tiles_cell(m.tri(k), m.tri(k + 1), A, A + 1, A + 1 + nx, A + nx))
    c.ensure('they are live', And(Not(m.dead(k)), Not(m.dead(k + 1))))


@contract(P, 'mesh from a height map', SRC)
def _(c):
    m = Mesh_(c, 'm')
    z = c.new('std::vector<double>', 'z')
    nx, ny = c.int('nx', 1), c.int('ny', 1)
    c.assume(c.val(z).len() == nx * ny)
    c.assume(nx * ny < 2 ** 28)
    c.call('MeshUtil::create_from_z', None, [z, nx, ny, m.lv])
    grid(c, m, nx, ny, lambda x, y: V(x, y, c.at(c.val(z), x + nx * y)))


@contract(P, 'mesh from a grid of points', SRC)
def _(c):
    m = Mesh_(c, 'm')
    p = c.new('std::vector<Point3>', 'p')
    nx, ny = c.int('nx', 1), c.int('ny', 1)
    c.assume(c.val(p).len() == nx * ny)
    c.assume(nx * ny < 2 ** 28)
    c.call('MeshUtil::create_from_grid', None, [p, nx, ny, m.lv])
    grid(c, m, nx, ny, lambda x, y: V.of(c.at(c.val(p), x + nx * y)))


# ------------------------------------------------------------------ tessellation
@contract(P, 'lattice points of a triangle', SRC)
def _(c):
    t = c.new('MeshTessellate', 't')
    (oa, a), (ob, b), (oc, d) = [pt(c, n) for n in 'abc']
    u, v, n = c.int('u'), c.int('v'), c.int('n', 1)
    r = V.of(c.call('MeshTessellate::interpolate', t, [oa, ob, oc, u, v, n]))
    un, vn = realv(u) / realv(n), realv(v) / realv(n)
    c.ensure('the point with barycentric coordinates (1-u/n-v/n, u/n, v/n)', r.eq(a * (1 - un - vn) + b * un + d * vn))


@contract(P, 'tessellation of every live triangle', SRC)
def _(c):
    t = c.new('MeshTessellate', 't')
    m, out = Mesh_(c, 'm'), Mesh_(c, 'out')
    n = c.int('n', 1)
    ex = c.ex
    with quiet(c):
        nt = m.nt()
    # ghost: one arbitrary small triangle (source triangle T, lattice corner (u0,v0), upward or downward)
    T = c.fresh_int('T', 0, nt)
    u0, v0 = c.fresh_int('u0', 0, n), c.fresh_int('v0', 0, n)
    c.assume(u0 + v0 < n)
    up = z3.Bool('upward')
    c.assume(Implies(Not(up), u0 >= 1))
    hit, cnt = c.obj(I(0), 'hit'), c.obj(I(0), 'cnt')
    live = Not(m.dead(T))
    where = {}
    f = c.fn('MeshTessellate::interpolate')

    def interp(ex, this, args, fn):
        del ex.handlers[f.mangled]
        try:
            r = ex.call_func(f, this, None, list(args))
        finally:
            ex.handlers[f.mangled] = interp
        p = V.of(ex.rd(r) if isinstance(r, LV) else r)
        src = [V.of(ex.rd(x)) for x in args[:3]]
        where[tuple(x.get_id() for x in p)] = (p, src, args[3], args[4], args[5])
        return r if not isinstance(r, LV) else ex.rd(r)
    ex.handlers[f.mangled] = interp

    def add(ex, this, args, fn):
        ps = [V.of(ex.rd(x)) for x in args]
        w = []
        for p in ps:
            k = tuple(x.get_id() for x in p)
            if k not in where:
                raise Unsupported('a triangle corner that is not a lattice point')
            w.append(where[k])
        a, b, d = w[0][1]
        i = frame_var(c, 'MeshTessellate::compute', 'iTriangle')
        want = m.tri(i)
        if not ex.quiet:
            c.ensure('corners are taken on one live triangle of the source, in its order',
                     And(Not(m.dead(i)), *[p.eq(q) for x in w for p, q in zip(x[1], [m.vert(y) for y in want])]))
            c.ensure('lattice divided as asked', And(*[x[4] == n for x in w]))
            c.ensure('oriented area is 1/n^2 of the triangle', And(*[x * realv(n) * realv(n) == y for x, y in zip((ps[1] - ps[0]).cross(ps[2] - ps[0]), (b - a).cross(d - a))]))
        (u1, v1), (u2, v2), (u3, v3) = [(x[2], x[3]) for x in w]

        def is_at(k):
            # lattice triangle (k, k+1, k+2) read as upward (u,v)(u+1,v)(u,v+1) or downward (u,v)(u,v+1)(u-1,v+1)
            r = [(u1, v1), (u2, v2), (u3, v3)]
            (p, q), (p1, q1), (p2, q2) = r[k:] + r[:k]
            return (And(p1 == p + 1, q1 == q, p2 == p, q2 == q + 1), And(p1 == p, q1 == q + 1, p2 == p - 1, q2 == q + 1), p, q)
        forms = [is_at(k) for k in range(3)]
        if not ex.quiet:
            c.ensure('a cell of the lattice, inside the triangle', Or(*[Or(And(U, p >= 0, q >= 0, p + q < n), And(D, p >= 1, q >= 0, p + q < n)) for U, D, p, q in forms]))
        is_ghost = And(i == T, Or(*[And(If(up, U, D), p == u0, q == v0) for U, D, p, q in forms]))
        ex.wr(hit, ex.rd(hit) + If(is_ghost, I(1), I(0)))
        ex.wr(cnt, ex.rd(cnt) + 1)
        return None
    ex.handlers[c.fn('Mesh::add_triangle', ['const Point3 &', 'const Point3 &', 'const Point3 &']).mangled] = add
    ex.used_contracts.add('Mesh::add_triangle(const Point3&, const Point3&, const Point3&) (appends one live triangle with these corners: C08)')
    LC = z3.Function('live_below', z3.IntSort(), z3.IntSort())
    h = lambda L: (ex.rd(hit), ex.rd(cnt))

    def before(L, x):
        with_st = ex.st
        ex.st = L.base
        try:
            return ex.rd(x)
        finally:
            ex.st = with_st
    B = lambda f: If(f, I(1), I(0))

    def inv0(L):
        i = L['iTriangle']
        ax = And(LC(I(0)) == 0, LC(i + 1) == LC(i) + B(Not(m.dead(i))))
        c.assume(ax)      # definition of the number of live triangles before i
        return [('range', And(0 <= i, i <= nt)), ('each cell produced once', ex.rd(hit) == B(And(T < i, live))), ('count', ex.rd(cnt) == n * n * LC(i))]

    def inv1(L):
        s = L['stripe']
        return [('range', And(0 <= s, s <= n)), ('count', ex.rd(cnt) == before(L, cnt) + s * s),
                ('cells of the stripes done', ex.rd(hit) == before(L, hit) + B(And(L['iTriangle'] == T, u0 + v0 < s)))]

    def inv2(L):
        s, j = L['stripe'], L['j']
        return [('range', And(0 <= j, j <= s)), ('count', ex.rd(cnt) == before(L, cnt) + 2 * j),
                ('cells of this stripe so far', ex.rd(hit) == before(L, hit) + B(And(L['iTriangle'] == T, u0 + v0 == s, If(up, And(1 <= v0, v0 <= j), v0 < j))))]
    c.loop_inv('MeshTessellate::compute', 0, inv0)
    c.loop_inv('MeshTessellate::compute', 1, inv1)
    c.loop_inv('MeshTessellate::compute', 2, inv2)
    c.call('MeshTessellate::compute', t, [m.lv, n, out.lv])
    c.ensure('every cell of every live triangle exactly once', ex.rd(hit) == B(live))
    c.ensure('n*n triangles for each live triangle', ex.rd(cnt) == n * n * LC(nt))
    c.ensure('source untouched', m.nt() == nt)
