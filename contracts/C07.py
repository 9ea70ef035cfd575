from .common import *
P = 'C07'


def valid_ids(c, m, n, pre='v'):
    nv = m.nv()
    ids = [c.int('%s%d' % (pre, k)) for k in range(n)]
    for i in ids:
        c.assume(And(i >= 0, i < nv))
    return ids


@contract(P, 'new mesh is empty', MESH)
def _(c):
    m = Mesh_(c, fill=False)
    c.ensure('no vertex', m.nv() == 0)
    c.ensure('no triangle', m.nt() == 0)
    c.ensure('reported empty', c.call('Mesh::empty', m.lv))
    c.ensure('no custom colour', m.color() == -1)


@contract(P, 'add_vertex', MESH)
def _(c):
    for how in ('point', 'coordinates'):
        m = Mesh_(c, 'm' + how)
        old = Snap(c)
        n0 = m.nv()
        p, vp = pt(c, 'p' + how)
        if how == 'point':
            r = c.call('Mesh::add_vertex', m.lv, [p], params=['const Point3 &'])
        else:
            r = c.call('Mesh::add_vertex', m.lv, list(vp), params=['double', 'double', 'double'])
        c.ensure('returns the next id (%s)' % how, r == n0)
        c.ensure('the vertex is stored (%s)' % how, m.vert(n0).eq(vp))
        c.ensure('point given is unchanged', V.of(c.val(p)).eq(vp))
        mesh_frame(c, m, old, nv=1, nt=0)


@contract(P, 'set_vertex and get_vertex', MESH)
def _(c):
    m = Mesh_(c, 'm')
    i, = valid_ids(c, m, 1)
    old = Snap(c)
    p, vp = pt(c, 'p')
    c.call('Mesh::set_vertex', m.lv, [i, p])
    c.ensure('reading gives what was stored', m.vert(i).eq(vp))
    mesh_frame(c, m, old, nv=0, nt=0, but_vert=[i])


@contract(P, 'add_triangle', MESH)
def _(c):
    m = Mesh_(c, 'm')
    ids = valid_ids(c, m, 3)
    old = Snap(c)
    n0 = m.nt()
    r = c.call('Mesh::add_triangle', m.lv, ids, params=['int', 'int', 'int'])
    c.ensure('returns the next id', r == n0)
    c.ensure('the triangle is stored in the given order', And(*[a == b for a, b in zip(m.tri(n0), ids)]))
    c.ensure('and is live', Not(m.dead(n0)))
    mesh_frame(c, m, old, nv=0, nt=1)


@contract(P, 'add_triangle from points', MESH)
def _(c):
    m = Mesh_(c, 'm')
    ps = [pt(c, 'p%d' % i) for i in range(3)]
    old = Snap(c)
    nv0, n0 = m.nv(), m.nt()
    r = c.call('Mesh::add_triangle', m.lv, [x[0] for x in ps], params=['const Point3 &', 'const Point3 &', 'const Point3 &'])
    c.ensure('returns the next id', r == n0)
    t = m.tri(n0)
    for k in range(3):
        c.ensure('corner %d' % k, m.vert(t[k]).eq(ps[k][1]))
        c.ensure('corner %d is a new vertex' % k, t[k] == nv0 + k)
    c.ensure('and is live', Not(m.dead(n0)))
    mesh_frame(c, m, old, nv=3, nt=1)


@contract(P, 'reading a triangle', MESH)
def _(c):
    m = Mesh_(c, 'm')
    j = c.fresh_int('j', 0, m.nt())
    old = Snap(c)
    a, b, d = m.tri(j)
    t = c.new('Triangle3', 'out')
    c.call('Mesh::get_triangle', m.lv, [j, t])
    o = [c.new('Point3', 'o%d' % k) for k in range(3)]
    c.call('Mesh::get_triangle_vertices', m.lv, [j] + o, params=['int', 'Point3 &', 'Point3 &', 'Point3 &'])
    for k, v in enumerate((a, b, d)):
        c.ensure('corner %d as a triangle' % k, V.of(c.call('Triangle3::p%d' % (k + 1), t)).eq(m.vert(v)))
        c.ensure('corner %d as a point' % k, V.of(c.val(o[k])).eq(m.vert(v)))
    mesh_frame(c, m, old, nv=0, nt=0)


@contract(P, 'unlink_triangle', MESH)
def _(c):
    m = Mesh_(c, 'm')
    j = c.int('j')
    c.assume(And(j >= 0, j < m.nt()))
    old = Snap(c)
    c.call('Mesh::unlink_triangle', m.lv, [j])
    mesh_frame(c, m, old, nv=0, nt=0, but_tri=[j])


@contract(P, 'clear', MESH)
def _(c):
    m = Mesh_(c, 'm')
    c.call('Mesh::clear', m.lv)
    c.ensure('no vertex left', m.nv() == 0)
    c.ensure('no triangle left', m.nt() == 0)
    c.ensure('reported empty', c.call('Mesh::empty', m.lv))


@contract(P, 'empty() and colour', MESH)
def _(c):
    m = Mesh_(c, 'm')
    old = Snap(c)
    c.ensure('empty if and only if there is no triangle', c.call('Mesh::empty', m.lv) == (m.nt() == 0))
    k = c.int('colour')
    c.call('Mesh::set_color', m.lv, [k])
    c.ensure('colour stored', m.color() == k)
    mesh_frame(c, m, old, nv=0, nt=0, color=False)


for K in ('MeshKernelLinkedTriangles', 'MeshKernelTIN'):
    @contract(P, 'storage back end ' + K, MESH)
    def _(c, K=K):
        k = c.construct(K)
        c.ensure('starts empty', And(c.call(K + '::nb_vertices', k) == 0, c.call(K + '::nb_triangles', k) == 0))
        any_kernel(c, 'k', k)

        def vert(i):
            o = c.new('Point3', fresh_name('o'))
            with quiet(c):
                c.call(K + '::get_vertex', k, [i, o])
            return V.of(c.val(o))

        def trv(i):
            o = [c.obj(I(0), 'o') for _ in range(3)]
            with quiet(c):
                c.call(K + '::get_triangle_vertices', k, [i] + o)
            return [c.val(x) for x in o]

        def dead(i):
            with quiet(c):
                return c.call(K + '::is_triangle_unlinked', k, [i])
        nv, nt = c.call(K + '::nb_vertices', k), c.call(K + '::nb_triangles', k)
        i, j = c.int('i'), c.int('j')
        c.assume(And(i >= 0, i < nv, j >= 0, j < nt))
        p, vp = pt(c, 'p')
        st0 = c.ex.st

        def fresh():
            c.ex.st = st0.copy()
        v0, t0, d0 = vert(i), trv(j), dead(j)
        # add_vertex
        fresh()
        r = c.call(K + '::add_vertex', k, [p])
        c.ensure('add_vertex: next id', r == nv)
        c.ensure('add_vertex: count', And(c.call(K + '::nb_vertices', k) == nv + 1, c.call(K + '::nb_triangles', k) == nt))
        c.ensure('add_vertex: stored', vert(nv).eq(vp))
        c.ensure('add_vertex: others unchanged', And(vert(i).eq(v0), *[a == b for a, b in zip(trv(j), t0)], dead(j) == d0))
        # set_vertex
        fresh()
        w = c.int('w')
        c.assume(And(w >= 0, w < nv))
        c.call(K + '::set_vertex', k, [w, p])
        c.ensure('set_vertex: stored', vert(w).eq(vp))
        c.ensure('set_vertex: others unchanged', And(Implies(i != w, vert(i).eq(v0)), *[a == b for a, b in zip(trv(j), t0)], dead(j) == d0))
        c.ensure('set_vertex: counts', And(c.call(K + '::nb_vertices', k) == nv, c.call(K + '::nb_triangles', k) == nt))
        # add_triangle
        fresh()
        ids = [c.int('a%d' % x) for x in range(3)]
        for x in ids:
            c.assume(And(x >= 0, x < nv))
        r = c.call(K + '::add_triangle', k, ids)
        c.ensure('add_triangle: next id', r == nt)
        c.ensure('add_triangle: counts', And(c.call(K + '::nb_vertices', k) == nv, c.call(K + '::nb_triangles', k) == nt + 1))
        c.ensure('add_triangle: stored and live', And(*[a == b for a, b in zip(trv(nt), ids)], Not(dead(nt))))
        c.ensure('add_triangle: others unchanged', And(vert(i).eq(v0), *[a == b for a, b in zip(trv(j), t0)], dead(j) == d0))
        # unlink
        fresh()
        u = c.int('u')
        c.assume(And(u >= 0, u < nt))
        c.call(K + '::unlink_triangle', k, [u])
        c.ensure('unlink: marked', dead(u))
        c.ensure('unlink: others unchanged', And(vert(i).eq(v0), *[a == b for a, b in zip(trv(j), t0)], Implies(j != u, dead(j) == d0)))
        c.ensure('unlink: counts', And(c.call(K + '::nb_vertices', k) == nv, c.call(K + '::nb_triangles', k) == nt))
        # clear
        fresh()
        c.call(K + '::clear', k)
        c.ensure('clear: empty', And(c.call(K + '::nb_vertices', k) == 0, c.call(K + '::nb_triangles', k) == 0))


@contract(P, 'neighbours', MESH)
def _(c):
    """links between triangles, as an invariant of the whole store: a link names a live triangle, another one,
    that links back; no triangle links twice to the same one"""
    K = 'MeshKernelLinkedTriangles'
    k = c.construct(K)
    any_kernel(c, 'k', k)
    nv, nt = c.call(K + '::nb_vertices', k), c.call(K + '::nb_triangles', k)

    def near(i):
        o = [c.obj(I(0), 'o') for _ in range(3)]
        with quiet(c):
            c.call(K + '::get_near_triangles', k, [i] + o)
        return [c.val(x) for x in o]

    def dead(i):
        with quiet(c):
            return c.call(K + '::is_triangle_unlinked', k, [i])

    def inv(i, n):
        L = near(i)
        return And(*[Or(l == -1, And(0 <= l, l < n, l != i, Not(dead(l)), Or(*[b == i for b in near(l)]))) for l in L],
                   *[Or(a == -1, a != b) for a, b in ((L[0], L[1]), (L[0], L[2]), (L[1], L[2]))])
    a = c.int('a')
    q = z3.Int('q')

    def whole(n):
        return ForAll([q], Implies(And(0 <= q, q < n, Not(dead(q))), inv(q, n)))
    c.assume(whole(nt))
    c.assume(And(0 <= a))
    st0 = c.ex.st
    near0 = near(a)

    def fresh():
        c.ex.st = st0.copy()
    fresh()
    ids = [c.int('v%d' % x) for x in range(3)]
    for x in ids:
        c.assume(And(x >= 0, x < nv))
    c.call(K + '::add_triangle', k, ids)
    c.ensure('adding: neighbours are live and mutual', Implies(And(a < nt + 1, Not(dead(a))), inv(a, nt + 1)))
    fresh()
    u = c.int('u')
    c.assume(And(u >= 0, u < nt, Not(dead(u))))
    c.call(K + '::unlink_triangle', k, [u])
    c.ensure('removing: no live triangle keeps it as a neighbour', Implies(And(a < nt, Not(dead(a))), And(*[x != u for x in near(a)])))
    c.ensure('removing: the other neighbours stay', Implies(And(a < nt, Not(dead(a))), And(*[Or(x == y, And(x == -1, y == u)) for x, y in zip(near(a), near0)])))
    c.ensure('removing: neighbours are live and mutual', Implies(And(a < nt, Not(dead(a))), inv(a, nt)))
