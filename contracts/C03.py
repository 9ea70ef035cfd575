from .common import *
P = 'C03'
SEG = ['const Segment3 &', 'Point3 &']


@contract(P, 'point in triangle', GEO)
def _(c):
    # every point of the plane is p1 + v (p2-p1) + w (p3-p1)
    t, (p1, p2, p3) = tri(c, 't')
    n = (p2 - p1).cross(p3 - p1)
    c.assume(n.n2() > 0)
    v, w = c.real('v'), c.real('w')
    u = 1 - v - w
    q = p1 * u + p2 * v + p3 * w
    p = c.obj(mkpt(c, *q), 'p')
    t0 = c.val(t)
    r = c.call('Triangle3::contains', t, [p])
    inside = And(u >= 0, v >= 0, w >= 0)
    # the pairwise products of the barycentric vectors
    n2 = c.real('n2')
    c.ensure('inside is reported', Implies(inside, r), hints=[n.n2()])
    c.ensure('outside is refused', Implies(r, inside), hints=[n.n2()])
    c.unchanged('triangle unchanged', t, t0)
    c.ensure('point unchanged', V.of(c.val(p)).eq(q))


@contract(P, 'segment against triangle', GEO)
def _(c):
    t, ps = tri(c, 't')
    c.assume((ps[1] - ps[0]).cross(ps[2] - ps[0]).n2() > 0)
    s, (a, b) = seg(c, 's')
    out, vo = pt(c, 'out')
    t0, s0 = c.val(t), c.val(s)
    pure_bool(c, 'Triangle3::contains', 'contains')
    pl = c.construct('Plane3', 'void (const Triangle3 &)', [t])
    o2, _v = pt(c, 'out2')
    cut = c.call('Plane3::intersect_with', pl, [s, o2], params=SEG)
    r = c.call('Triangle3::intersect_with', t, [s, out], params=SEG)
    inside = c.call('Triangle3::contains', t, [o2])
    c.ensure('hit if and only if the plane is crossed inside the triangle', r == And(cut, inside))
    c.ensure('the point returned is the crossing point', Implies(r, V.of(c.val(out)).eq(V.of(c.val(o2)))))
    c.unchanged('triangle unchanged', t, t0)
    c.unchanged('segment unchanged', s, s0)


@contract(P, 'triangle cut by plane', GEO)
def _(c):
    t, ps = tri(c, 't')
    pl = c.new('Plane3', 'pl')
    d = [c.call('Plane3::distance_to', pl, [c.obj(mkpt(c, *p))]) for p in ps]
    r = c.call('Triangle3::cutted_by', t, [pl])
    c.ensure('cut if and only if corners lie strictly on both sides', r == And(Or(*[x > 0 for x in d]), Or(*[x < 0 for x in d])))


def overlap_setup(c):
    t, ps = tri(c, 't')
    u, qs = tri(c, 'u')
    for k in (ps, qs):
        c.assume((k[1] - k[0]).cross(k[2] - k[0]).n2() > 0)
    pure_bool(c, 'Triangle3::intersect_with', 'hit', SEG, out=(1,))
    pure_bool(c, 'Triangle3::cutted_by', 'cut')

    def boxes(ex, this, args, fn):
        a = [realv(x) if x.sort() == z3.IntSort() else x for x in val_terms(ex.rd(this))]
        b = [realv(x) if x.sort() == z3.IntSort() else x for x in val_terms(ex.rd(args[0]))]
        F = z3.Function('boxes', *([x.sort() for x in a + b] + [z3.BoolSort()]))
        ex.assume(F(*(a + b)) == F(*(b + a)))          # proved under C04: the answer is symmetric
        return F(*(a + b))
    c.ex.handlers['BoundingBox3::intersect_with'] = boxes

    def box(ex, ctor, nodes):
        args = [ex.rd(ex.lv_or_temp(n)) for n in nodes]
        leaves = [x for a in args for x in val_terms(a)]
        o = ex.symval(parse_type('BoundingBox3'), fresh_name('box'))
        f = {}
        for k, v in o.f.items():
            ty = z3.BoolSort() if 'nit' in k else z3.RealSort()
            f[k] = z3.Function('bb' + k, *([x.sort() for x in leaves] + [ty]))(*leaves)
        return Struct('BoundingBox3', f)
    c.ex.handlers['ctor:BoundingBox3'] = box
    return t, ps, u, qs


@contract(P, 'overlapping triangles have a crossing edge', GEO)
def _(c):
    t, ps, u, qs = overlap_setup(c)
    r = c.call('Triangle3::intersect_with', t, [u], params=['const Triangle3 &'])
    hits = []
    for tr, ed in ((t, qs), (u, ps)):
        for i, j in ((0, 1), (0, 2), (1, 2)):
            for a, b in ((i, j), (j, i)):
                hits.append(c.call('Triangle3::intersect_with', tr, [mkseg(c, ed[a], ed[b]), c.new('Point3', fresh_name('o'))], params=SEG))
    c.ensure('overlap only if an edge of one hits the other', Implies(r, Or(*hits)))


@contract(P, 'overlap is symmetric', GEO)
def _(c):
    t, ps, u, qs = overlap_setup(c)
    t0, u0 = c.val(t), c.val(u)
    r = c.call('Triangle3::intersect_with', t, [u], params=['const Triangle3 &'])
    r2 = c.call('Triangle3::intersect_with', u, [t], params=['const Triangle3 &'])
    c.ensure('same answer whichever triangle is asked', r == r2)
    c.unchanged('first triangle unchanged', t, t0)
    c.unchanged('second triangle unchanged', u, u0)
