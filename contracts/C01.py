from .common import *
P = 'C01'


def ops(name, qn, spec, scalar=False, inplace=False):
    @contract(P, name, GEO)
    def _(c):
        a, va = pt(c, 'a')
        a0 = c.val(a)
        if scalar:
            b = c.real('d')
            if 'operator/' in qn:
                c.assume(b != 0)
        else:
            b, vb = pt(c, 'b')
            b0 = c.val(b)
        r = c.call(qn, a, [b])
        want = spec(va, b if scalar else vb)
        if inplace:
            c.ensure('result object holds ' + name, V.of(c.val(a)).eq(want))
            c.ensure('returned value is the object', V.of(r).eq(want))
        else:
            c.ensure('returns ' + name, V.of(r).eq(want) if isinstance(want, V) else r == want)
            c.unchanged('first operand unchanged', a, a0)
        if not scalar:
            c.unchanged('second operand unchanged', b, b0)


ops('sum', 'Point3::operator+', lambda a, b: a + b)
ops('difference', 'Point3::operator-', lambda a, b: a - b)
ops('scaling', 'Point3::operator*', lambda a, d: a * d, scalar=True)
ops('division', 'Point3::operator/', lambda a, d: V(a.x / d, a.y / d, a.z / d), scalar=True)
ops('in-place sum', 'Point3::operator+=', lambda a, b: a + b, inplace=True)
ops('in-place difference', 'Point3::operator-=', lambda a, b: a - b, inplace=True)
ops('in-place scaling', 'Point3::operator*=', lambda a, d: a * d, scalar=True, inplace=True)
ops('in-place division', 'Point3::operator/=', lambda a, d: V(a.x / d, a.y / d, a.z / d), scalar=True, inplace=True)
ops('dot product', 'Point3::dot_product', lambda a, b: a.dot(b))
ops('squared distance', 'Point3::distance_square', lambda a, b: (a - b).n2())


@contract(P, 'in-place operations on the object itself', GEO)
def _(c):
    for qn, f in (('Point3::operator+=', 2), ('Point3::operator-=', 0)):
        a, va = pt(c, fresh_name('a'))
        c.call(qn, a, [a])
        c.ensure(qn + ' with itself', V.of(c.val(a)).eq(va * f))


@contract(P, 'construction and access', GEO)
def _(c):
    x, y, z = c.real('x'), c.real('y'), c.real('z')
    p = c.construct('Point3', 'void (double, double, double)', [x, y, z])
    for k, w in zip('xyz', (x, y, z)):
        c.ensure('%s() reads the %s given' % (k, k), c.call('Point3::' + k, p, [], const=True) == w)
        c.ensure('mutable %s() reads the %s given' % (k, k), c.call('Point3::' + k, p, [], const=False) == w)
    q = c.construct('Point3')
    c.ensure('default point is the origin', V.of(c.val(q)).eq(V(0, 0, 0)))


@contract(P, 'cross product', GEO)
def _(c):
    a, va = pt(c, 'a')
    b, vb = pt(c, 'b')
    a0, b0 = c.val(a), c.val(b)
    r = V.of(c.call('Point3::cross_product', a, [b]))
    c.unchanged('first operand unchanged', a, a0)
    c.unchanged('second operand unchanged', b, b0)
    c.ensure('orthogonal to the first operand', r.dot(va) == 0)
    c.ensure('orthogonal to the second operand', r.dot(vb) == 0)
    c.ensure('Lagrange identity', r.n2() == va.n2() * vb.n2() - va.dot(vb) * va.dot(vb))
    c.ensure('right handed', det(va, vb, r) == r.n2())
    s = V.of(c.call('Point3::cross_product', b, [a]))
    c.ensure('antisymmetric', s.eq(-r))
    c.ensure('is the Euclidean cross product', r.eq(va.cross(vb)))


@contract(P, 'norms', GEO)
def _(c):
    a, va = pt(c, 'a')
    a0 = c.val(a)
    n2 = c.call('Point3::norm_square', a)
    n = c.call('Point3::norm', a)
    c.unchanged('operand unchanged', a, a0)
    c.ensure('squared norm', n2 == va.n2())
    c.ensure('norm is the non-negative root', z3.And(n >= 0, n * n == va.n2()))


@contract(P, 'normalising', GEO)
def _(c):
    a, va = pt(c, 'a')
    a0 = c.val(a)
    c.assume(va.n2() > 0)
    r = V.of(c.call('Point3::normalized', a))
    c.unchanged('operand unchanged by normalized()', a, a0)
    c.ensure('length one', r.n2() == 1)
    c.ensure('direction kept', r.cross(va).eq(V(0, 0, 0)))
    c.ensure('same sense', r.dot(va) > 0)
    c.call('Point3::normalize', a)
    c.ensure('in-place form agrees', V.of(c.val(a)).eq(r))


@contract(P, 'segment lengths and accessors', GEO)
def _(c):
    a, va = pt(c, 'a')
    b, vb = pt(c, 'b')
    for cls in ('Segment3', 'Line3'):
        s = c.construct(cls, 'void (const Point3 &, const Point3 &)', [a, b])
        s0 = c.val(s)
        c.ensure(cls + ' keeps its first point', V.of(c.call(cls + '::p1', s)).eq(va))
        c.ensure(cls + ' keeps its second point', V.of(c.call(cls + '::p2', s)).eq(vb))
        if cls == 'Segment3':
            n2 = c.call('Segment3::norm_square', s)
            n = c.call('Segment3::norm', s)
            c.ensure('segment squared length', n2 == (va - vb).n2())
            c.ensure('segment length', z3.And(n >= 0, n * n == (va - vb).n2()))
        c.unchanged(cls + ' unchanged by reading', s, s0)
        q, vq = pt(c, 'q' + cls)
        c.call(cls + '::set_p1', s, [q])
        c.ensure(cls + '::set_p1', z3.And(V.of(c.call(cls + '::p1', s)).eq(vq), V.of(c.call(cls + '::p2', s)).eq(vb)))
        c.call(cls + '::set_p2', s, [a])
        c.ensure(cls + '::set_p2', z3.And(V.of(c.call(cls + '::p1', s)).eq(vq), V.of(c.call(cls + '::p2', s)).eq(va)))


@contract(P, 'triangle corners', GEO)
def _(c):
    p = [pt(c, 'p%d' % i) for i in range(3)]
    t = c.construct('Triangle3', 'void (const Point3 &, const Point3 &, const Point3 &)', [x[0] for x in p])
    cur = [x[1] for x in p]
    for i in range(3):
        c.ensure('corner %d kept' % (i + 1), V.of(c.call('Triangle3::p%d' % (i + 1), t)).eq(cur[i]))
    for i in range(3):
        q, vq = pt(c, 'q%d' % i)
        c.call('Triangle3::set_p%d' % (i + 1), t, [q])
        cur[i] = vq
        c.ensure('set_p%d sets that corner only' % (i + 1), z3.And(*[V.of(c.call('Triangle3::p%d' % (k + 1), t)).eq(cur[k]) for k in range(3)]))


@contract(P, 'triangle orthogonal vector', GEO)
def _(c):
    t, (p1, p2, p3) = tri(c, 't')
    t0 = c.val(t)
    o = V.of(c.call('Triangle3::orthogonal', t))
    c.unchanged('triangle unchanged', t, t0)
    c.ensure('orthogonal vector by the right-hand rule of the vertex order', o.eq((p2 - p1).cross(p3 - p1)))
    # translation and cyclic invariance
    d = V(*[c.real('d' + k) for k in 'xyz'])
    ps = [mkpt(c, *(p + d)) for p in (p1, p2, p3)]
    t2 = c.construct('Triangle3', 'void (const Point3 &, const Point3 &, const Point3 &)', [c.obj(p) for p in ps])
    c.ensure('independent of position', V.of(c.call('Triangle3::orthogonal', t2)).eq(o))
    cyc = [mkpt(c, *p) for p in (p2, p3, p1)]
    t3 = c.construct('Triangle3', 'void (const Point3 &, const Point3 &, const Point3 &)', [c.obj(p) for p in cyc])
    c.ensure('independent of the cyclic order', V.of(c.call('Triangle3::orthogonal', t3)).eq(o))
    rev = [mkpt(c, *p) for p in (p2, p1, p3)]
    t4 = c.construct('Triangle3', 'void (const Point3 &, const Point3 &, const Point3 &)', [c.obj(p) for p in rev])
    c.ensure('reversed order reverses it', V.of(c.call('Triangle3::orthogonal', t4)).eq(-o))


@contract(P, 'triangle area', GEO)
def _(c):
    t, (p1, p2, p3) = tri(c, 't')
    t0 = c.val(t)
    s = c.call('Triangle3::surface', t)
    c.unchanged('triangle unchanged', t, t0)
    c.ensure('area is not negative', s >= 0)
    c.ensure('area is half the parallelogram', 4 * s * s == (p2 - p1).cross(p3 - p1).n2())


@contract(P, 'triangle normal', GEO)
def _(c):
    t, (p1, p2, p3) = tri(c, 't')
    t0 = c.val(t)
    w = (p2 - p1).cross(p3 - p1)
    c.assume(w.n2() > 0)
    n = V.of(c.call('Triangle3::normal', t))
    c.unchanged('triangle unchanged', t, t0)
    c.ensure('unit length', n.n2() == 1)
    c.ensure('orthogonal to the edges', z3.And(n.dot(p2 - p1) == 0, n.dot(p3 - p1) == 0))
    c.ensure('right-hand rule', n.dot(w) > 0)
    s = c.call('Triangle3::surface', t)
    c.ensure('normal times twice the area is the orthogonal vector', (n * (2 * s)).eq(w))
