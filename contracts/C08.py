from .common import *
P = 'C08'


def ids(c, m, names):
    nv = m.nv()
    out = []
    for n in names:
        i = c.int(n)
        c.assume(And(i >= 0, i < nv))
        out.append(i)
    return out


def one(b):
    return If(b, I(1), I(0))


def count(tris, x, y):
    """how many times the oriented triangles run from x to y, minus how many times from y to x"""
    s = I(0)
    for t in tris:
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            s = s + one(And(a == x, b == y)) - one(And(a == y, b == x))
    return s


def polygon(vs, x, y):
    s = I(0)
    for a, b in zip(vs, list(vs[1:]) + [vs[0]]):
        s = s + one(And(a == x, b == y)) - one(And(a == y, b == x))
    return s


def appended(c, m, n0, n, allowed):
    ts = [m.tri(n0 + k) for k in range(n)]
    for k, t in enumerate(ts):
        c.ensure('new triangle %d is live' % k, Not(m.dead(n0 + k)))
        c.ensure('new triangle %d uses the vertices concerned only' % k, And(*[Or(*[v == a for a in allowed]) for v in t]))
    return ts


def edge(c):
    return c.fresh_int('x'), c.fresh_int('y')


@contract(P, 'add_quad', MESH)
def _(c):
    m = Mesh_(c, 'm')
    vs = ids(c, m, 'abcd')
    old, n0 = Snap(c), m.nt()
    c.call('Mesh::add_quad', m.lv, vs, params=['int'] * 4)
    mesh_frame(c, m, old, nv=0, nt=2)
    ts = appended(c, m, n0, 2, vs)
    x, y = edge(c)
    c.ensure('the outer boundary is the quad in the given order', count(ts, x, y) == polygon(vs, x, y))
    for k, t in enumerate(ts):
        c.ensure('triangle %d has three different corners of the quad' % k, Implies(z3.Distinct(*vs), z3.Distinct(*t)))


@contract(P, 'add_pentagon', MESH)
def _(c):
    m = Mesh_(c, 'm')
    vs = ids(c, m, 'abcde')
    old, n0 = Snap(c), m.nt()
    c.call('Mesh::add_pentagon', m.lv, vs)
    mesh_frame(c, m, old, nv=0, nt=3)
    ts = appended(c, m, n0, 3, vs)
    x, y = edge(c)
    c.ensure('the outer boundary is the pentagon in the given order', count(ts, x, y) == polygon(vs, x, y))
    for k, t in enumerate(ts):
        c.ensure('triangle %d has three different corners of the pentagon' % k, Implies(z3.Distinct(*vs), z3.Distinct(*t)))


for optim in (True, False):
    @contract(P, 'add_quad from points%s' % (', smallest surface' if optim else ''), MESH)
    def _(c, optim=optim):
        m = Mesh_(c, 'm')
        ps = [pt(c, 'p%d' % i) for i in range(4)]
        old, n0, v0 = Snap(c), m.nt(), m.nv()
        c.call('Mesh::add_quad', m.lv, [p[0] for p in ps] + [z3.BoolVal(optim)], params=['const Point3 &'] * 4 + ['bool'])
        mesh_frame(c, m, old, nv=4, nt=2)
        vs = [v0 + k for k in range(4)]
        for k in range(4):
            c.ensure('corner %d stored' % k, m.vert(vs[k]).eq(ps[k][1]))
        ts = appended(c, m, n0, 2, vs)
        x, y = edge(c)
        c.ensure('the outer boundary is the quad in the given order', count(ts, x, y) == polygon(vs, x, y))
        for k, t in enumerate(ts):
            c.ensure('triangle %d has three different corners of the quad' % k, z3.Distinct(*t))


@contract(P, 'split a triangle at a vertex', MESH)
def _(c):
    for how in ('id', 'point'):
        m = Mesh_(c, 'm' + how)
        j = c.int('j' + how)
        c.assume(And(j >= 0, j < m.nt()))
        t0 = m.tri(j)
        old, n0, v0 = Snap(c), m.nt(), m.nv()
        if how == 'id':
            s, = ids(c, m, ['s'])
            c.call('Mesh::split_triangle_with_vertex', m.lv, [j, s], params=['int', 'int'])
            mesh_frame(c, m, old, nv=0, nt=3, but_tri=[j])
        else:
            p, vp = pt(c, 'p')
            c.call('Mesh::split_triangle_with_vertex', m.lv, [j, p], params=['int', 'const Point3 &'])
            mesh_frame(c, m, old, nv=1, nt=3, but_tri=[j])
            s = v0
            c.ensure('the new vertex is the point', m.vert(s).eq(vp))
        ts = appended(c, m, n0, 3, list(t0) + [s])
        x, y = edge(c)
        c.ensure('same signed boundary as the removed triangle (%s)' % how, count(ts, x, y) == count([t0], x, y))
        c.ensure('every new triangle meets the split vertex (%s)' % how, And(*[Or(*[v == s for v in t]) for t in ts]))
        for k, t in enumerate(ts):
            c.ensure('triangle %d has three different corners (%s)' % (k, how), Implies(z3.Distinct(s, *t0), z3.Distinct(*t)))


@contract(P, 'split the edge shared by two triangles', MESH)
def _(c):
    m = Mesh_(c, 'm')
    j1, j2 = c.int('j1'), c.int('j2')
    c.assume(And(j1 >= 0, j1 < m.nt(), j2 >= 0, j2 < m.nt(), j1 != j2))
    a, b, p, q, s = ids(c, m, 'abpqs')
    c.assume(And(z3.Distinct(a, b, p), z3.Distinct(a, b, q)))
    t1, t2 = m.tri(j1), m.tri(j2)

    def cyc(t, u):
        return Or(*[And(*[t[k] == u[(k + r) % 3] for k in range(3)]) for r in range(3)])
    c.assume(cyc(t1, (a, b, p)))      # t1 runs along the edge from a to b, t2 from b to a, in any storage order
    c.assume(cyc(t2, (b, a, q)))
    old, n0 = Snap(c), m.nt()
    c.call('Mesh::split_edge_with_vertex', m.lv, [j1, j2, a, b, s])
    mesh_frame(c, m, old, nv=0, nt=4, but_tri=[j1, j2])
    ts = appended(c, m, n0, 4, [a, b, p, q, s])
    x, y = edge(c)
    # the edge a-b is replaced by a-s-b on both sides, so the boundary of the pair is unchanged
    c.ensure('same signed boundary as the two removed triangles', count(ts, x, y) == count([t1, t2], x, y))
    c.ensure('every new triangle meets the split vertex', And(*[Or(*[v == s for v in t]) for t in ts]))
    for k, t in enumerate(ts):
        c.ensure('triangle %d has three different corners' % k, Implies(And(s != a, s != b, s != p, s != q), z3.Distinct(*t)))
    for (e0, e1) in ((b, p), (p, a), (a, q), (q, b)):
        c.ensure('each outer edge belongs to exactly one new triangle', Implies(z3.Distinct(a, b, p, q, s),
                 z3.Sum([one(And(u == e0, v == e1)) for t in ts for u, v in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))]) == 1))


@contract(P, 'flip a triangle', MESH)
def _(c):
    m = Mesh_(c, 'm')
    j = c.int('j')
    c.assume(And(j >= 0, j < m.nt()))
    t0 = m.tri(j)
    old, n0 = Snap(c), m.nt()
    c.call('Mesh::flip_triangle', m.lv, [j])
    mesh_frame(c, m, old, nv=0, nt=1, but_tri=[j])
    t, = appended(c, m, n0, 1, t0)
    x, y = edge(c)
    c.ensure('reversed signed boundary', count([t], x, y) == -count([t0], x, y))
    c.ensure('same three corners', Implies(z3.Distinct(*t0), z3.Distinct(*t)))
