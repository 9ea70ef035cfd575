from .common import *
P = 'C02'


def plane(c, name='pl', unit=True):
    """arbitrary plane with a unit normal, seen through get()"""
    o = c.new('Plane3', name)
    k = [c.obj(z3.RealVal(0), 'out%d' % i) for i in range(4)]
    before = c.val(o)
    c.call('Plane3::get', o, k)
    c.unchanged('get() does not change the plane', o, before)
    a, b, d, e = [c.val(x) for x in k]
    n = V(a, b, d)
    if unit:
        c.assume(n.n2() == 1)
    return o, n, e


def nonaligned(c):
    ps = [pt(c, 'p%d' % i) for i in (1, 2, 3)]
    p1, p2, p3 = [x[1] for x in ps]
    w = (p2 - p1).cross(p3 - p1)
    c.assume(w.n2() > 0)
    return ps, w


def built(c, pl, ps, w):
    p1, p2, p3 = [x[1] for x in ps]
    k = [c.obj(z3.RealVal(0), 'out%d' % i) for i in range(4)]
    c.call('Plane3::get', pl, k)
    n = V(*[c.val(x) for x in k[:3]])
    d = c.val(k[3])
    nn = V.of(c.call('Plane3::normal', pl))
    c.ensure('normal() is the normal part of the coefficients', nn.eq(n))
    c.ensure('unit normal', n.n2() == 1)
    c.ensure('normal orthogonal to the triangle, right-hand rule', And(n.dot(p2 - p1) == 0, n.dot(p3 - p1) == 0, n.dot(w) > 0))
    for i, p in enumerate((p1, p2, p3)):
        dist = c.call('Plane3::distance_to', pl, [ps[i][0]])
        c.ensure('contains point %d' % (i + 1), dist == 0)
    for i in range(3):
        c.ensure('point %d not changed' % (i + 1), V.of(c.val(ps[i][0])).eq(ps[i][1]))


@contract(P, 'plane from three points (constructor)', GEO)
def _(c):
    ps, w = nonaligned(c)
    pl = c.construct('Plane3', 'void (const Point3 &, const Point3 &, const Point3 &)', [x[0] for x in ps])
    built(c, pl, ps, w)


@contract(P, 'plane from three points (compute_using)', GEO)
def _(c):
    ps, w = nonaligned(c)
    pl = c.new('Plane3', 'old')
    c.call('Plane3::compute_using', pl, [x[0] for x in ps], params=['const Point3 &', 'const Point3 &', 'const Point3 &'])
    built(c, pl, ps, w)


@contract(P, 'plane from a triangle', GEO)
def _(c):
    ps, w = nonaligned(c)
    t = c.construct('Triangle3', 'void (const Point3 &, const Point3 &, const Point3 &)', [x[0] for x in ps])
    pl = c.construct('Plane3', 'void (const Triangle3 &)', [t])
    built(c, pl, ps, w)
    pl2 = c.new('Plane3', 'old')
    c.call('Plane3::compute_using', pl2, [t], params=['const Triangle3 &'])
    built(c, pl2, ps, w)


@contract(P, 'signed distance', GEO)
def _(c):
    pl, n, d = plane(c)
    p, vp = pt(c, 'p')
    h = c.real('h')
    pl0 = c.val(pl)
    d1 = c.call('Plane3::distance_to', pl, [p])
    q = c.obj(mkpt(c, *(vp + n * h)))
    d2 = c.call('Plane3::distance_to', pl, [q])
    c.ensure('moving along the normal changes it by the offset', d2 == d1 + h)
    c.ensure('zero exactly on the plane', (d1 == 0) == (n.dot(vp) + d == 0))
    r, vr = pt(c, 'r')
    with c.under(n.dot(vr - vp) == 0):
        c.ensure('moving within the plane keeps it', c.call('Plane3::distance_to', pl, [r]) == d1)
    c.unchanged('plane unchanged', pl, pl0)
    c.ensure('point unchanged', V.of(c.val(p)).eq(vp))


@contract(P, 'projection', GEO)
def _(c):
    pl, n, d = plane(c)
    p, vp = pt(c, 'p')
    out, _o = pt(c, 'out')
    pl0 = c.val(pl)
    c.call('Plane3::project_point', pl, [p, out])
    q = V.of(c.val(out))
    c.ensure('lies on the plane', n.dot(q) + d == 0)
    c.ensure('differs along the normal only', (q - vp).cross(n).eq(V(0, 0, 0)))
    c.ensure('is the point minus its signed distance along the normal', q.eq(vp - n * (n.dot(vp) + d)))
    c.unchanged('plane unchanged', pl, pl0)
    c.ensure('point unchanged', V.of(c.val(p)).eq(vp))


@contract(P, 'projection in place', GEO)
def _(c):
    pl, n, d = plane(c)
    p, vp = pt(c, 'p')
    c.call('Plane3::project_point', pl, [p, p])
    q = V.of(c.val(p))
    c.ensure('in-place projection is the projection', q.eq(vp - n * (n.dot(vp) + d)))


@contract(P, 'segment cut', GEO)
def _(c):
    pl, n, d = plane(c)
    s, (a, b) = seg(c, 's')
    out, vo = pt(c, 'out')
    pl0, s0 = c.val(pl), c.val(s)
    r = c.call('Plane3::intersect_with', pl, [s, out], params=['const Segment3 &', 'Point3 &'])
    ka, kb = n.dot(a) + d, n.dot(b) + d
    c.ensure('cut implies ends strictly on opposite sides', Implies(r, ka * kb < 0))
    c.ensure('ends strictly on opposite sides implies cut', Implies(ka * kb < 0, r))
    q = V.of(c.val(out))
    c.ensure('point on the plane', Implies(r, n.dot(q) + d == 0))
    c.ensure('point on the line of the segment', Implies(r, ((q - a) * (kb - ka)).eq((b - a) * (-ka))))
    c.ensure('point strictly between the ends', Implies(r, And((q - a).dot(b - a) > 0, (q - b).dot(a - b) > 0)))
    c.ensure('nothing written without a cut', Implies(Not(r), q.eq(vo)))
    c.unchanged('plane unchanged', pl, pl0)
    c.unchanged('segment unchanged', s, s0)


@contract(P, 'triangle cut by plane', GEO)
def _(c):
    t, ps = tri(c, 't')
    pl = c.new('Plane3', 'pl')
    d = [c.call('Plane3::distance_to', pl, [c.obj(mkpt(c, *p))]) for p in ps]
    r = c.call('Triangle3::cutted_by', t, [pl])
    c.ensure('cut if and only if corners lie strictly on both sides', r == And(Or(*[x > 0 for x in d]), Or(*[x < 0 for x in d])))
