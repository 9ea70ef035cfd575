from .common import *
from .C21 import at_entry, B
from vcg.values import Base, Ptr, parse_type
P = 'C28'
RE = MESH + ['Renderer.cpp', 'RendererCamera.cpp', 'RendererLight.cpp']
LIM = 2 ** 28


def xyz(p):
    return Struct('Point3', {'_x': p.x, '_y': p.y, '_z': p.z})


@contract(P, 'camera space', RE)
def _(c):
    """origin, then the rotation, then the move ahead; the frame of a camera set through the renderer"""
    ex = c.ex
    r = c.new('Renderer', 'r')
    X, Y = c.int('X', 1, LIM), c.int('Y', 1, LIM)
    v = c.val(r)
    ex.wr(r, Struct(v.cls, dict(v.f, _Xmax=X, _Ymax=Y)))
    ox, oy, oz, ahead, yaw, pitch, roll, zoom = [c.real(n) for n in ('ox', 'oy', 'oz', 'ahead', 'yaw', 'pitch', 'roll', 'zoom')]
    c.call('Renderer::set_camera', r, [ox, oy, oz, ahead, yaw, pitch, roll, zoom])
    cam = r.fld('_camera')
    p, vp = pt(c, 'p')
    q = c.obj(xyz(vp - V(ox, oy, oz)), 'q')
    rot = c.construct('RotationEulerAngles', 'void (double, double, double)', [yaw, pitch, roll])
    c.call('RotationEulerAngles::apply', rot, [q])
    before = c.val(cam)
    l = V.of(c.call('RendererCamera::local_ref', cam, [p]))
    c.ensure('moved to the origin of the camera, turned by its angles and moved ahead', l.eq(V.of(c.val(q)) + V(0, 0, ahead)))
    c.unchanged('the camera is only read', cam, before)
    c.ensure('the point is only read', V.of(c.val(p)).eq(vp))
    f = c.val(cam).f
    # the frame, as project sees it: a point straight ahead is at the centre
    l = V(0, 0, c.real('z'))
    c.assume(l.z > 0)
    ex.handlers[c.fn('RendererCamera::local_ref').mangled] = lambda ex, this, args, fn: xyz(l)
    sx, sy, w = c.obj(I(0), 'sx'), c.obj(I(0), 'sy'), c.obj(z3.RealVal(0), 'w')
    c.call('RendererCamera::project', cam, [p, sx, sy, w])
    c.ensure('straight ahead is the centre of the frame', And(2 * ex.rd(sx) <= X, X <= 2 * ex.rd(sx) + 1, 2 * ex.rd(sy) <= Y, Y <= 2 * ex.rd(sy) + 1))


def project(c, cam, p, l):
    ex = c.ex
    seen = []

    def local(ex, this, args, fn):
        if not ex.quiet:
            c.ensure('the camera-space position of that point', V.of(ex.rd(args[0]) if not isinstance(args[0], Struct) else args[0]).eq(V.of(c.val(p))))
        return xyz(l)
    ex.handlers[c.fn('RendererCamera::local_ref').mangled] = local
    ex.used_contracts.add('RendererCamera::local_ref (above)')
    sx, sy, w = c.obj(c.int(fresh_name('oldx')), 'sx'), c.obj(c.int(fresh_name('oldy')), 'sy'), c.obj(c.real(fresh_name('oldw')), 'w')
    c.call('RendererCamera::project', cam, [p, sx, sy, w])
    return ex.rd(sx), ex.rd(sy), ex.rd(w)


def camera(c):
    cam = c.new('RendererCamera', 'cam')
    f = c.val(cam).f
    c.assume(And(0 <= f['_screenCenterX'], f['_screenCenterX'] < LIM, 0 <= f['_screenCenterY'], f['_screenCenterY'] < LIM))
    return cam, f


@contract(P, 'projection', RE)
def _(c):
    cam, f = camera(c)
    p = c.new('Point3', 'p')
    l = V.of(c.sym('Point3', 'l'))
    c.assume(l.z > 0)
    x, y, w = project(c, cam, p, l)
    half = z3.Q(1, 2)
    for n, s, a, m in (('column', x, l.x, '_screenCenterX'), ('row', y, l.y, '_screenCenterY')):
        v = c.real(n)
        c.assume(v == a * f['_zoomFactor'] / l.z + realv(f[m]))
        inside = And(v < LIM - 1, v > 1 - LIM)
        c.ensure('%s: perspective projection, centred, rounded to nearest' % n, Implies(inside, And(realv(s) - half <= v, v <= realv(s) + half)))
        c.ensure('%s: stays on its side when far outside' % n, And(Implies(v >= LIM, s == LIM), Implies(v <= -LIM, s == -LIM), -LIM <= s, s <= LIM))
    c.ensure('depth is the inverse distance', w * l.z == 1)


@contract(P, 'in the plane of the camera', RE)
def _(c):
    cam, f = camera(c)
    p = c.new('Point3', 'p')
    l = V.of(c.sym('Point3', 'l'))
    c.assume(l.z == 0)
    c.ex.check_div = False       # the quotient is not used: IEEE gives an infinity, which is held within the range
    c.ex.assumptions.add('division by zero gives an infinity or not-a-number, and no trap')
    x, y, w = project(c, cam, p, l)
    c.ensure('positions are in range', And(-LIM <= x, x <= LIM, -LIM <= y, y <= LIM))
    c.ensure('infinitely far', w == 0)


@contract(P, 'points of one view ray', RE)
def _(c):
    cam, f = camera(c)
    p, q = c.new('Point3', 'p'), c.new('Point3', 'q')
    l, s = V.of(c.sym('Point3', 'l')), c.real('s')
    c.assume(And(l.z > 0, s > 0))
    m = l * s
    zx, zy = l.x * f['_zoomFactor'] / l.z, l.y * f['_zoomFactor'] / l.z
    c.lemma('same column', m.x * f['_zoomFactor'] / m.z == zx)
    c.lemma('same row', m.y * f['_zoomFactor'] / m.z == zy)
    a = project(c, cam, p, l)
    b = project(c, cam, q, m)
    c.ensure('share a pixel', And(a[0] == b[0], a[1] == b[1]))
    c.lemma('depths', And(a[2] * l.z == 1, b[2] * m.z == 1))
    c.ensure('nearer points have greater depth', And(Implies(s > 1, a[2] > b[2]), Implies(s < 1, b[2] > a[2])))




@contract(P, 'ambient light', RE)
def _(c):
    col, fac = c.int('color', 0, 0xffffff), c.real('factor')
    r, g, b = [c.int(n, 0, 255) for n in 'rgb']
    c.assume(col == 65536 * r + 256 * g + b)
    L = c.construct('RendererLightAmbiant', 'void (int, double)', [col, fac])
    st = c.val(L)
    ins = [c.real('in%d' % i) for i in range(3)]
    o = [c.obj(x, 'o') for x in ins]
    n = c.new('Point3', 'n')
    nv = c.val(n)
    c.call('RendererLightAmbiant::apply', L, o + [n])
    for i, (a, x, k) in enumerate(zip(o, ins, (r, g, b))):
        c.ensure('channel %d: surface times light' % i, c.ex.rd(a) == x * fac * realv(k) / 256)
    c.unchanged('the light stays as it is', L, st)
    c.unchanged('so does the normal', n, nv)


@contract(P, 'directional light', RE)
def _(c):
    col, fac = c.int('color', 0, 0xffffff), c.real('factor')
    r, g, b = [c.int(n, 0, 255) for n in 'rgb']
    c.assume(col == 65536 * r + 256 * g + b)
    d, vd = pt(c, 'direction')
    L = c.construct('RendererLightDiffuse', 'void (int, double, const Point3 &)', [col, fac, d])
    st = c.val(L)
    ins = [c.real('in%d' % i) for i in range(3)]
    o = [c.obj(x, 'o') for x in ins]
    n, vn = pt(c, 'n')
    c.call('RendererLightDiffuse::apply', L, o + [n])
    cos = vn.dot(vd)
    for i, (a, x, k) in enumerate(zip(o, ins, (r, g, b))):
        c.ensure('channel %d: surface times light times the normal along the direction, never negative' % i, c.ex.rd(a) == If(cos > 0, x * fac * realv(k) / 256 * cos, 0))
    c.unchanged('the light stays as it is', L, st)
    c.ensure('so does the normal', V.of(c.val(n)).eq(vn))


@contract(P, 'sum over the lights', RE)
def _(c):
    ex = c.ex
    r = c.new('Renderer', 'r')
    n = c.int('lights', 0)
    c.assume(n < 2 ** 30)
    who = c.obj(Base(parse_type('int'), n, lambda i: i), 'lights')
    lv = c.obj(Base(parse_type('RendererLight *'), n, lambda i: Ptr(who, i)), 'ptrs')
    v = c.val(r)
    ex.wr(r, Struct(v.cls, dict(v.f, _lights=c.val(lv))))
    Z, R = z3.IntSort(), z3.RealSort()
    # each light multiplies each channel by its own gain, never negative; S(k, i): sum of the gains of the lights before i
    G, S = z3.Function(fresh_name('gain'), Z, Z, R), z3.Function(fresh_name('sum'), Z, Z, R)
    for k in range(3):
        c.assume(S(k, 0) == 0)
    normal, nv = pt(c, 'normal')
    calls = c.obj(I(0), 'calls')

    def apply(ex, this, args, fn):
        i = ex.rd(this)
        if not ex.quiet:
            c.ensure('lights in turn', i == ex.rd(calls))
            c.ensure('given the normal of the face', V.of(ex.rd(args[3]) if not isinstance(args[3], Struct) else args[3]).eq(nv))
        for k in range(3):
            x = ex.rd(args[k])
            ex.wr(args[k], x * G(k, i))
        ex.wr(calls, ex.rd(calls) + 1)
    ex.handlers['RendererLight::apply'] = apply
    ex.used_contracts.add('RendererLight::apply (each channel times a gain of that light: ambient light, directional light above)')
    col = c.int('color', 0, 0xffffff)
    ch = [c.int(m, 0, 255) for m in 'rgb']
    c.assume(col == 65536 * ch[0] + 256 * ch[1] + ch[2])
    N = 'Renderer::compute_color_with_lights'

    def inv(L):
        i = ex.rd(calls)
        for k in range(3):
            ex.assume(Implies(And(0 <= i, i < n), S(k, i + 1) == S(k, i) + G(k, i)))
            ex.assume(Implies(And(0 <= i, i < n), G(k, i) >= 0))
        tot = [L[x] for x in ('dRTotal', 'dGTotal', 'dBTotal')]
        return [('range', And(0 <= L['i'], L['i'] <= n, i == L['i']))] + [('channel %d so far' % k, And(tot[k] == realv(ch[k]) / 256 * S(k, L['i']), S(k, L['i']) >= 0)) for k in range(3)]
    c.loop_inv(N, 0, inv)
    out = c.call(N, r, [col, normal])
    c.ensure('every light once', ex.rd(calls) == n)
    parts = []
    for k, m in enumerate('rgb'):
        o, t = c.int('out_' + m, 0, 255), c.real('total_' + m)
        c.assume(t == realv(ch[k]) * S(k, n))
        c.assume(o == If(t >= z3.Q(509, 2), 255, z3.ToInt(t + z3.Q(1, 2))))
        parts.append(o)
    c.ensure('each channel is the sum over the lights, saturated', out == 65536 * parts[0] + 256 * parts[1] + parts[2])


@contract(P, 'adding lights', RE)
def _(c):
    ex = c.ex
    r = c.new('Renderer', 'r')
    n0 = c.val(r).f['_lights'].len()
    col, fac = c.int('color', 0, 0xffffff), c.real('factor')
    d, vd = pt(c, 'direction')
    want = [c.construct('RendererLightAmbiant', 'void (int, double)', [col, fac]), c.construct('RendererLightDiffuse', 'void (int, double, const Point3 &)', [col, fac, d])]
    c.call('Renderer::add_ambient_light', r, [col, fac])
    c.call('Renderer::add_diffuse_light', r, [col, fac, d])
    ls = c.val(r).f['_lights']
    c.ensure('one more each', ls.len() == n0 + 2)
    for i, w in enumerate(want):
        p = c.at(ls, n0 + i)
        c.ensure('light %d is the one asked for' % i, c.eq(ex.rd(p.lv), c.val(w)) if isinstance(p, Ptr) and ex.rd(p.lv).cls == c.val(w).cls else z3.BoolVal(False))


@contract(P, 'a new camera', RE)
def _(c):
    c.assume(And(COS(z3.RealVal(0)) == 1, SIN(z3.RealVal(0)) == 0))
    cam = c.construct('RendererCamera')
    p, vp = pt(c, 'p')
    l = V.of(c.call('RendererCamera::local_ref', cam, [p]))
    c.ensure('sits at the origin, unturned: only the flip of the screen is left', l.eq(V(vp.x, -vp.y, vp.z)))
