from .common import *
P = 'C05'
SRC = ['Geometry.cpp', 'Transform.cpp']
DEG = z3.RealVal('2') * z3.RealVal('3.14159265359') / 360
DEG = z3.simplify(DEG)


def rod(p, u, cs, sn):
    """rotation of p about the axis u by the right-hand rule (Rodrigues)"""
    return p * cs + u.cross(p) * sn + u * (u.dot(p) * (1 - cs))


def angle(c, name='angle'):
    a = c.real(name)
    return a, COS(a * DEG), SIN(a * DEG)


FORMS = {
    'matrix': ('RotationMatrix', None),
    'quaternion': ('RotationQuaternion', None),
    'angle-axis': ('RotationAngleAxis', 'from_angle_axis'),
    'angle-axis (set)': ('RotationAngleAxis', 'set_angle_axis'),
    'angle-axis (constructor)': ('RotationAngleAxis', 'ctor'),
}


def build(c, form, a, ax):
    cls, how = FORMS[form]
    if how == 'ctor':
        return cls, c.construct(cls, 'void (double, const Point3 &)', [a, ax])
    o = c.construct(cls)
    c.call(cls + '::' + (how or 'from_angle_axis'), o, [a, ax])
    return cls, o


def halves(c, a):
    h = a * DEG * z3.RealVal('1/2')
    c.assume(COS(a * DEG) == 2 * COS(h) * COS(h) - 1)       # double-angle identities of the real functions
    c.assume(SIN(a * DEG) == 2 * SIN(h) * COS(h))
    c.ex.assumptions.add('double-angle identities of sin and cos')


for form in FORMS:
    @contract(P, form + ' rotation is the right-hand rotation about the axis', SRC)
    def _(c, form=form):
        a, cs, sn = angle(c)
        ax, u = pt(c, 'axis')
        c.assume(u.n2() == 1)
        if form == 'quaternion':
            halves(c, a)
        cls, o = build(c, form, a, ax)
        c.ensure('axis argument unchanged', V.of(c.val(ax)).eq(u))
        o0 = c.val(o)
        p, vp = pt(c, 'p')
        c.call(cls + '::apply', o, [p])
        c.ensure('is the rotation by the angle about the axis', V.of(c.val(p)).eq(rod(vp, u, cs, sn)))
        c.unchanged('applying does not change the rotation', o, o0)
        q, vq = pt(c, 'q')
        c.call(cls + '::apply', o, [q])
        c.ensure('second application is the same map', V.of(c.val(q)).eq(rod(vq, u, cs, sn)))


@contract(P, 'lemma: the rotation formula is rigid, fixes its axis and is undone by the opposite angle', SRC)
def _(c):
    u = V(*[c.real('u' + k) for k in 'xyz'])
    c.assume(u.n2() == 1)
    cs, sn = c.real('cs'), c.real('sn')
    c.assume(cs * cs + sn * sn == 1)
    p = V(*[c.real('p' + k) for k in 'xyz'])
    q = V(*[c.real('q' + k) for k in 'xyz'])
    rp, rq = rod(p, u, cs, sn), rod(q, u, cs, sn)
    c.ensure('lengths are preserved', rp.n2() == p.n2())
    c.ensure('inner products are preserved', rp.dot(rq) == p.dot(q))
    c.ensure('the map is linear, so distances are preserved', (rp - rq).eq(rod(p - q, u, cs, sn)))
    c.ensure('handedness is preserved', rp.cross(rq).eq(rod(p.cross(q), u, cs, sn)))
    c.ensure('the axis is fixed', rod(u, u, cs, sn).eq(u))
    c.ensure('the opposite angle undoes it', rod(rp, u, cs, -sn).eq(p))
    w = u.cross(p)
    with c.under(p.dot(u) == 0):
        c.ensure('turns by the right-hand rule', rp.eq(p * cs + w * sn))


@contract(P, 'opposite angle undoes a rotation', SRC)
def _(c):
    a, cs, sn = angle(c)
    ax, u = pt(c, 'axis')
    c.assume(u.n2() == 1)
    c.assume(And(COS(-a * DEG) == cs, SIN(-a * DEG) == -sn))
    c.ex.assumptions.add('cos is even, sin is odd')
    c1, r1 = build(c, 'matrix', a, ax)
    c2, r2 = build(c, 'matrix', -a, ax)
    p, vp = pt(c, 'p')
    c.call(c1 + '::apply', r1, [p])
    c.call(c2 + '::apply', r2, [p])
    c.ensure('point returns to its place', V.of(c.val(p)).eq(vp))


@contract(P, 'Euler angles: yaw, then pitch with the screen flip, then roll', SRC)
def _(c):
    y, p, r = c.real('yaw'), c.real('pitch'), c.real('roll')
    for how in ('ctor', 'set'):
        if how == 'ctor':
            o = c.construct('RotationEulerAngles', 'void (double, double, double)', [y, p, r])
        else:
            o = c.construct('RotationEulerAngles', 'void (double, double, double)', [c.real('y0'), c.real('p0'), c.real('r0')])
            c.call('RotationEulerAngles::set_angles', o, [y, p, r])
        o0 = c.val(o)
        q, v = pt(c, 'q' + how)
        c.call('RotationEulerAngles::apply', o, [q])
        C, S = (lambda t: COS(t * DEG)), (lambda t: SIN(t * DEG))
        x1, y1, z1 = v.x * C(y) + v.z * S(y), v.y, v.z * C(y) - v.x * S(y)
        x2, y2, z2 = x1, z1 * S(p) - y1 * C(p), z1 * C(p) + y1 * S(p)
        x3, y3, z3_ = x2 * C(r) + y2 * S(r), y2 * C(r) - x2 * S(r), z2
        got = V.of(c.val(q))
        c.ensure('is the composition (%s)' % how, got.eq(V(x3, y3, z3_)))
        c.ensure('preserves lengths (%s)' % how, got.n2() == v.n2())
        q2, v2 = pt(c, 'k' + how)
        c.call('RotationEulerAngles::apply', o, [q2])
        c.ensure('preserves inner products, hence distances (%s)' % how, V.of(c.val(q2)).dot(got) == v.dot(v2))
        c.unchanged('applying does not change the rotation (%s)' % how, o, o0)


@contract(P, 'translation and scaling', SRC)
def _(c):
    t, vt = pt(c, 't')
    o = c.construct('Translation', 'void (const Point3 &)', [t])
    o0 = c.val(o)
    p, vp = pt(c, 'p')
    c.call('Translation::apply', o, [p])
    c.ensure('translation adds the vector', V.of(c.val(p)).eq(vp + vt))
    c.ensure('the vector given is unchanged', V.of(c.val(t)).eq(vt))
    c.unchanged('translation object unchanged', o, o0)
    k = [c.real('s' + x) for x in 'xyz']
    s = c.construct('Scale', 'void (double, double, double)', k)
    s0 = c.val(s)
    q, vq = pt(c, 'q')
    c.call('Scale::apply', s, [q])
    c.ensure('scaling multiplies each coordinate by its own factor', V.of(c.val(q)).eq(V(vq.x * k[0], vq.y * k[1], vq.z * k[2])))
    c.unchanged('scale object unchanged', s, s0)


def arr(c, name, n):
    items = [c.real('%s%d' % (name, i)) for i in range(n)]
    lv = c.obj(Lit(parse_type('double'), items), name)
    return Ptr(lv, I(0)), items, lv


@contract(P, 'explicit matrix and quaternion', SRC)
def _(c):
    ptr, m, lv = arr(c, 'm', 9)
    o = c.construct('RotationMatrix')
    p, vp = pt(c, 'p')
    c.call('RotationMatrix::apply', o, [p])
    c.ensure('default matrix is the identity', V.of(c.val(p)).eq(vp))
    c.call('RotationMatrix::set_matrix', o, [ptr])
    c.call('RotationMatrix::apply', o, [p])
    c.ensure('applies the matrix to the column vector', V.of(c.val(p)).eq(V(*[m[3 * i] * vp.x + m[3 * i + 1] * vp.y + m[3 * i + 2] * vp.z for i in range(3)])))
    gp, g, glv = arr(c, 'g', 9)
    c.call('RotationMatrix::get_matrix', o, [gp])
    c.ensure('get_matrix returns the matrix set', And(*[c.at(c.val(glv), i) == m[i] for i in range(9)]))
    q = c.construct('RotationQuaternion')
    p, vp = pt(c, 'p2')
    c.call('RotationQuaternion::apply', q, [p])
    c.ensure('default quaternion is the identity', V.of(c.val(p)).eq(vp))
    qp, w, qlv = arr(c, 'w', 4)
    c.assume(w[0] * w[0] + w[1] * w[1] + w[2] * w[2] + w[3] * w[3] == 1)
    c.call('RotationQuaternion::set_quaternion', q, [qp])
    p, vp = pt(c, 'p3')
    c.call('RotationQuaternion::apply', q, [p])
    a, b = w[0], V(*w[1:])
    c.ensure('unit quaternion acts by conjugation', V.of(c.val(p)).eq(vp * (a * a - b.n2()) + b * (2 * b.dot(vp)) + b.cross(vp) * (2 * a)))


@contract(P, 'whole point lists', SRC)
def _(c):
    n = c.int('n', 0)
    vec = c.new('std::vector<Point3>', 'pts')
    v0 = c.val(vec)
    t, vt = pt(c, 't')
    o = c.construct('Translation', 'void (const Point3 &)', [t])
    c.call('Transform::apply_all', o, [vec])
    v1 = c.val(vec)
    c.ensure('count unchanged', v1.len() == v0.len())
    i = c.fresh_int('i', 0, v0.len())
    c.ensure('each point moved once', V.of(c.at(v1, i)).eq(V.of(c.at(v0, i)) + vt))
