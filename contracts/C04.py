from .common import *
P = 'C04'


def bounds(c, o):
    """abstract view of a box: (initialised, mins, maxs)"""
    b = c.val(o)
    f = b.f
    return f['_bInitialized'], [f['_x1'], f['_y1'], f['_z1']], [f['_x2'], f['_y2'], f['_z2']]


def box(c, name):
    """arbitrary box satisfying the representation invariant"""
    o = c.new('BoundingBox3', name)
    ini, lo, hi = bounds(c, o)
    for a, b in zip(lo, hi):
        c.assume(Implies(ini, a <= b))
    return o


@contract(P, 'empty box', GEO)
def _(c):
    o = c.construct('BoundingBox3')
    c.ensure('starts empty', Not(bounds(c, o)[0]))


@contract(P, 'adding a point (invariant step)', GEO)
def _(c):
    o = box(c, 'box')
    ini, lo, hi = bounds(c, o)
    p, vp = pt(c, 'p')
    c.call('BoundingBox3::add', o, [p])
    ini2, lo2, hi2 = bounds(c, o)
    c.ensure('not empty afterwards', ini2)
    for k, (a, b, a2, b2, x) in enumerate(zip(lo, hi, lo2, hi2, vp)):
        ax = 'xyz'[k]
        c.ensure('first point is both bounds on ' + ax, Implies(Not(ini), And(a2 == x, b2 == x)))
        c.ensure('lower bound on %s is the minimum' % ax, Implies(ini, a2 == If(x < a, x, a)))
        c.ensure('upper bound on %s is the maximum' % ax, Implies(ini, b2 == If(x > b, x, b)))
        c.ensure('invariant: ordered bounds on ' + ax, a2 <= b2)
    c.ensure('point unchanged', V.of(c.val(p)).eq(vp))


@contract(P, 'insertion order does not matter', GEO)
def _(c):
    o1 = box(c, 'box')
    o2 = c.obj(c.val(o1), 'box2')
    p, vp = pt(c, 'p')
    q, vq = pt(c, 'q')
    c.call('BoundingBox3::add', o1, [p])
    c.call('BoundingBox3::add', o1, [q])
    c.call('BoundingBox3::add', o2, [q])
    c.call('BoundingBox3::add', o2, [p])
    c.ensure('same box', c.eq(c.val(o1), c.val(o2)))


@contract(P, 'box of a triangle', GEO)
def _(c):
    t, ps = tri(c, 't')
    t0 = c.val(t)
    o = c.construct('BoundingBox3', 'void (const Triangle3 &)', [t])
    ini, lo, hi = bounds(c, o)
    c.ensure('not empty', ini)
    for k in range(3):
        v = [list(p)[k] for p in ps]
        c.ensure('lower bound attained', And(*[lo[k] <= x for x in v], Or(*[lo[k] == x for x in v])))
        c.ensure('upper bound attained', And(*[hi[k] >= x for x in v], Or(*[hi[k] == x for x in v])))
    c.unchanged('triangle unchanged', t, t0)


@contract(P, 'overlap test', GEO)
def _(c):
    a, b = box(c, 'a'), box(c, 'b')
    ia, la, ha = bounds(c, a)
    ib, lb, hb = bounds(c, b)
    c.assume(And(ia, ib))
    a0, b0 = c.val(a), c.val(b)
    r = c.call('BoundingBox3::intersect_with', a, [b])
    q = [c.real('q' + k) for k in 'xyz']
    common = And(*[And(l1 <= x, x <= h1, l2 <= x, x <= h2) for l1, h1, l2, h2, x in zip(la, ha, lb, hb, q)])
    c.ensure('boxes sharing a point are reported', Implies(common, r))
    w = [If(l1 > l2, l1, l2) for l1, l2 in zip(la, lb)]
    c.ensure('reported boxes share the corner of their larger lower bounds', Implies(r, And(*[And(l1 <= x, x <= h1, l2 <= x, x <= h2) for l1, h1, l2, h2, x in zip(la, ha, lb, hb, w)])))
    c.ensure('symmetric', r == c.call('BoundingBox3::intersect_with', b, [a]))
    c.unchanged('first box unchanged', a, a0)
    c.unchanged('second box unchanged', b, b0)


@contract(P, 'triangles sharing a point have overlapping boxes', GEO)
def _(c):
    t, ps = tri(c, 't')
    u, qs = tri(c, 'u')
    w = [c.real('w%d' % i) for i in range(4)]
    c.assume(And(w[0] >= 0, w[1] >= 0, w[0] + w[1] <= 1, w[2] >= 0, w[3] >= 0, w[2] + w[3] <= 1))
    a = c.construct('BoundingBox3', 'void (const Triangle3 &)', [t])
    b = c.construct('BoundingBox3', 'void (const Triangle3 &)', [u])
    _i, la, ha = bounds(c, a)
    _i, lb, hb = bounds(c, b)
    x = ps[0] * (1 - w[0] - w[1]) + ps[1] * w[0] + ps[2] * w[1]
    for k in range(3):
        v = [list(p)[k] for p in ps]
        m, s, t_ = [c.real('%s%d' % (n, k)) for n in 'mst']
    r = c.call('BoundingBox3::intersect_with', a, [b])
    for name, tri_, (i, j) in (('first', ps, (0, 1)), ('second', qs, (2, 3))):
        l, h = (la, ha) if tri_ is ps else (lb, hb)
        for k in range(3):
            v = [list(p)[k] for p in tri_]
            g = v[0] * (1 - w[i] - w[j]) + v[1] * w[i] + v[2] * w[j]
            # convex combination lies between the bounds
            c.lemma('point of the %s triangle inside its box, axis %s, lower' % (name, 'xyz'[k]), g >= l[k])
            c.lemma('point of the %s triangle inside its box, axis %s, upper' % (name, 'xyz'[k]), g <= h[k])
    y = qs[0] * (1 - w[2] - w[3]) + qs[1] * w[2] + qs[2] * w[3]
    c.ensure('sharing a point implies reported', Implies(x.eq(y), r))
