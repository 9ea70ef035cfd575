from .common import *
from .C21 import at_entry, B
from vcg.values import Base, Ptr, parse_type
from vcg.symex import boolv
P = 'C27'
RE = MESH + ['Renderer.cpp', 'RendererCamera.cpp', 'RendererLight.cpp']


class Frame:
    """a renderer in any state, and one pixel (gx, gy) of its frame that is followed"""

    def __init__(self, c, gy=None):
        self.c, ex = c, c.ex
        ex.f32_exact = True
        ex.assumptions.add('single precision rounding of depths is ignored')
        self.r = c.new('Renderer', 'r')
        self.X, self.Y = c.int('X', 1), c.int('Y', 1)
        c.assume(And(self.X < 2 ** 28, self.Y < 2 ** 28, self.X * self.Y < 2 ** 28))
        N = self.X * self.Y
        fty, ity = parse_type('float'), parse_type('int')
        self.pix = c.obj(Base(ity, N, lambda i: ex.symval(ity, 'pix', (i,))), 'pix')
        self.wbuf = c.obj(Base(fty, N, lambda i: ex.symval(fty, 'wbuf', (i,))), 'wbuf')
        v = c.val(self.r)
        ex.wr(self.r, Struct(v.cls, dict(v.f, _Xmax=self.X, _Ymax=self.Y, _pixelBuffer=Ptr(self.pix, I(0)), _wBuffer=Ptr(self.wbuf, I(0)))))
        self.gx, self.gy = c.fresh_int('gx', 0, self.X), c.fresh_int('gy', 0, self.Y) if gy is None else gy
        self.T = self.gy * self.X + self.gx
        self.w0, self.p0 = self.w(), self.p()

    def w(self):
        return self.c.at(self.c.ex.rd(self.wbuf), self.T)

    def p(self):
        return self.c.at(self.c.ex.rd(self.pix), self.T)

    def row(self, y):
        """rows are inside the buffers, and apart"""
        c, X = self.c, self.X
        inside = And(0 <= y, y < self.Y)
        c.lemma('rows are inside the buffers', Implies(inside, And(0 <= y * X, y * X + X <= X * self.Y)))
        c.lemma('later rows', Implies(y > self.gy, (y - self.gy) * X >= X))
        c.lemma('earlier rows', Implies(y < self.gy, (self.gy - y) * X >= X))

    def rows(self, j):
        X = self.X
        return [('rows inside', Implies(And(0 <= j, j < self.Y), And(0 <= j * X, j * X + X <= X * self.Y))), ('rows apart', And(Implies(j > self.gy, (j - self.gy) * X >= X), Implies(j < self.gy, (self.gy - j) * X >= X)))]

    def sizes(self):
        return ('buffers keep their size', And(self.c.ex.rd(self.wbuf).len() == self.X * self.Y, self.c.ex.rd(self.pix).len() == self.X * self.Y))

    def same(self, w=None, p=None):
        return And(self.w() == (self.w0 if w is None else w), self.p() == (self.p0 if p is None else p))


def line(c, slanted):
    F = Frame(c)
    ex = c.ex
    ax, bx, y, color = [c.int(n) for n in ('ax', 'bx', 'y', 'color')]
    aw, bw = c.real('aw'), c.real('bw')
    c.assume(ax < bx if slanted else ax == bx)
    F.row(y)
    # the depth at column gx of the line from (ax, aw) to (bx, bw)
    want = aw + (bw - aw) * realv(F.gx - ax) / realv(bx - ax) if slanted else bw
    hit = And(F.gy == y, ax <= F.gx, F.gx <= bx)
    w = c.real('depth')
    c.assume(w == want)
    N = 'Renderer::draw_horizontal_line'
    done = lambda i: And(F.gy == y, ax <= F.gx, F.gx < i)
    near = F.w0 < w

    def inv(L):
        i = L['i']
        a, b, wa, wb = L['ax'], L['bx'], L['aw'], L['bw']
        return [('range', And(0 <= a, a <= i, i <= b + 1, b < F.X, 0 <= y, y < F.Y)),
                F.sizes(),
                ('pixel followed', And(F.w() == If(And(done(i), near), w, F.w0), F.p() == If(And(done(i), near), color, F.p0)))]
    c.loop_inv(N, 0, inv)
    c.call(N, F.r, [ax, aw, bx, bw, y, color])
    with c.under(hit, near):
        c.ensure('a nearer fragment replaces depth and colour', And(F.w() == w, F.p() == color))
    with c.under(Not(And(hit, near))):
        c.ensure('nothing else changes a pixel', F.same())


@contract(P, 'horizontal line', RE)
def _(c):
    line(c, True)


@contract(P, 'horizontal line of one pixel', RE)
def _(c):
    line(c, False)


def rounded(x, v):
    """x is a column nearest to v"""
    return And(realv(x) - z3.Q(1, 2) <= v, v <= realv(x) + z3.Q(1, 2))


@contract(P, 'trapezoid', RE)
def _(c):
    F = Frame(c)
    ex = c.ex
    ay, cy, color = [c.int(n) for n in ('ay', 'cy', 'color')]
    ax, aw, bx, bw, cx, cw, dx, dw = [c.real(n) for n in ('ax', 'aw', 'bx', 'bw', 'cx', 'cw', 'dx', 'dw')]
    c.assume(And(ax <= bx, cx <= dx, ay <= cy))
    c.assume(And(-2 ** 28 <= ay, cy <= 2 ** 28))
    hits = c.obj(I(0), 'hits')
    side = lambda y, p, q: p + (q - p) * realv(y - ay) / realv(cy - ay)

    def one(ex, this, args, fn):
        x1, w1, x2, w2, y, col = args
        if not ex.quiet:
            c.ensure('rows drawn are rows of the trapezoid in the frame', And(ay <= y, y < cy, 0 <= y, y < F.Y))
            c.ensure('in the colour given', col == color)
            for n, x, w, p, q, wp, wq in (('left', x1, w1, ax, cx, aw, cw), ('right', x2, w2, bx, dx, bw, dw)):
                v = c.real(fresh_name('edge'))
                c.assume(v == side(y, p, q))
                c.ensure('%s end: depth interpolated along the edge' % n, w == side(y, wp, wq))
                c.ensure('%s end: on the edge' % n, rounded(x, v))
        ex.wr(hits, ex.rd(hits) + B(y == F.gy))
    ex.handlers[c.fn('Renderer::draw_horizontal_line').mangled] = one
    ex.used_contracts.add('Renderer::draw_horizontal_line (above)')
    N = 'Renderer::draw_trapeze'
    c.loop_inv(N, 0, lambda L: [('range', And(ay <= L['y'], 0 <= L['y'], L['ay'] <= L['y'], Or(L['y'] <= L['cy'], L['y'] == L['ay']))),
                                ('rows so far', ex.rd(hits) == B(And(ay <= F.gy, F.gy < L['y'])))])
    c.call(N, F.r, [ax, aw, bx, bw, ay, cx, cw, dx, dw, cy, color])
    c.ensure('every row of the trapezoid in the frame is drawn once', ex.rd(hits) == B(And(ay <= F.gy, F.gy < cy)))


class Camera:
    """the camera as a function of the point (what it computes is property C28)"""

    def __init__(self, c):
        self.c, ex = c, c.ex
        R, Z = z3.RealSort(), z3.IntSort()
        self.known, self.sym = [], False
        self.f = [z3.Function(fresh_name(n), R, R, R, s) for n, s in (('sx', Z), ('sy', Z), ('depth', R))]

        def project(ex, this, args, fn):
            for o, v in zip(args[1:], self.of(ex.rd(args[0]) if not isinstance(args[0], Struct) else args[0])):
                ex.wr(o, v)
        ex.handlers[c.fn('RendererCamera::project').mangled] = project
        ex.used_contracts.add('RendererCamera::project (a function of the point: C28)')

    def of(self, p):
        p = V.of(p)
        for q, v in self.known:
            if all(a.eq(b) for a, b in zip(p, q)):
                return v
        v = [f(p.x, p.y, p.z) for f in self.f]
        if not self.sym:
            n = len(self.known)
            v = [z3.Int('sx%d' % n), z3.Int('sy%d' % n), z3.Real('depth%d' % n)]
            self.known.append((p, v))
        for x in v[:2]:
            self.c.assume(And(-2 ** 28 <= x, x <= 2 ** 28))
        return v


def triangle(c, two, order, ties):
    F, K, ex = Frame(c), Camera(c), c.ex
    tri = [c.new('Point3', n) for n in 'ABC']
    vs = [K.of(c.val(p)) for p in tri]
    K.sym = True
    lo, mid, hi = [vs[i] for i in order]
    c.assume(And(lo[1] == mid[1] if ties[0] else lo[1] < mid[1], mid[1] == hi[1] if ties[1] else mid[1] < hi[1]))
    # the point of the long edge at the height of the middle vertex
    t = c.real('t')
    if not any(ties):
        c.assume(t == realv(mid[1] - lo[1]) / realv(hi[1] - lo[1]))
    else:
        t = z3.RealVal(0 if ties[0] else 1)
    dx, dw = realv(lo[0]) + t * realv(hi[0] - lo[0]), lo[2] + t * (hi[2] - lo[2])
    color = c.int('color')
    calls = c.obj(I(0), 'calls')
    level = c.obj(I(0), 'level')        # where the last trapezoid ended
    lit = c.int('lit')

    normal = V.of(c.sym('Point3', 'normal'))

    def face(ex, this, args, fn):
        if not ex.quiet:
            for i, p in enumerate(tri):
                c.ensure('normal of the triangle drawn', V.of(c.call('Triangle3::p%d' % (i + 1), this)).eq(V.of(c.val(p))))
        return Struct('Point3', {'_x': normal.x, '_y': normal.y, '_z': normal.z})
    ex.handlers[c.fn('Triangle3::normal').mangled] = face
    ex.used_contracts.add('Triangle3::normal (C03)')

    def shade(ex, this, args, fn):
        if not ex.quiet:
            c.ensure('shaded with the colour asked for', args[0] == color)
            c.ensure('and the normal of the face', V.of(ex.rd(args[1]) if not isinstance(args[1], Struct) else args[1]).eq(normal))
        return lit
    ex.handlers[c.fn('Renderer::compute_color_with_lights').mangled] = shade

    def corner(x, y, w):
        """a vertex, or the point of an edge at that height"""
        l = [And(x == realv(v[0]), y == v[1], w == v[2]) for v in vs]
        l.append(And(y == mid[1], w == dw, rounded(x, dx)))
        return Or(*l)

    def trap(ex, this, args, fn):
        x1, w1, x2, w2, y1, x3, w3, x4, w4, y2, col = [realv(a) if i not in (4, 9, 10) else a for i, a in enumerate(args)]
        if not ex.quiet:
            c.ensure('a trapezoid has its corners in order', And(x1 <= x2, x3 <= x4, y1 <= y2))
            for n, x, y, w in (('top left', x1, y1, w1), ('top right', x2, y1, w2), ('bottom left', x3, y2, w3), ('bottom right', x4, y2, w4)):
                c.ensure('%s corner is a vertex, or a point of an edge with the depth interpolated along it' % n, corner(x, y, w))
            c.ensure('in the shaded colour', col == lit)
            k = ex.rd(calls)
            c.ensure('the first starts at the top', Implies(k == 0, And(*[y1 <= v[1] for v in vs])))
            c.ensure('the second starts where the first ends', Implies(k == 1, y1 == ex.rd(level)))
            c.ensure('and ends at the bottom', Implies(k == 1, And(*[y2 >= v[1] for v in vs])))
            c.ensure('two of them', k < 2)
        ex.wr(calls, ex.rd(calls) + 1)
        ex.wr(level, y2)
        return z3.Bool(fresh_name('drawn'))
    ex.handlers[c.fn('Renderer::draw_trapeze').mangled] = trap
    ex.used_contracts.add('Renderer::draw_trapeze (above)')
    r = c.call('Renderer::draw_triangle_1color', F.r, tri + [color, z3.BoolVal(two)])
    (x1, y1, _), (x2, y2, _), (x3, y3, _) = vs
    front = (x1 - x2) * (y1 - y3) - (y1 - y2) * (x1 - x3) > 0
    c.ensure('nothing or the whole triangle is drawn', Or(ex.rd(calls) == 0, ex.rd(calls) == 2))
    seen = And(Or(*[v[0] > 0 for v in vs]), Or(*[v[1] > 0 for v in vs]), Or(*[v[0] < F.X for v in vs]), Or(*[v[1] < F.Y for v in vs]))
    c.ensure('drawn when it may be seen', Implies(And(seen, z3.BoolVal(True) if two else front), ex.rd(calls) == 2))
    if not two:
        c.ensure('never from behind', Implies(Not(front), And(ex.rd(calls) == 0, Not(boolv(r)))))


for two in (False, True):
    for o, t in [(o, (0, 0)) for o in ('012', '021', '102', '120', '201', '210')] + [(o, t) for o in ('012', '120', '201') for t in ((1, 0), (0, 1))]:
        def f(c, two=two, o=o, t=t):
            triangle(c, two, [int(x) for x in o], t)
        contract(P, '%striangle, vertices %s%s%s%s%s from the top' % ('two-faced ' if two else '', o[0], '=' if t[0] else '<', o[1], '=' if t[1] else '<', o[2]), RE)(f)


EPS = z3.Q(1, 100000)      # a line is drawn over faces that are nearer by no more than this: their own edges


def segment(c, along, sign):
    """draw_line, by direction of the longer side"""
    F, K, ex = Frame(c), Camera(c), c.ex
    p, q = c.new('Point3', 'p'), c.new('Point3', 'q')
    color = c.int('color')
    (x1, y1, w1), (x2, y2, w2) = K.of(c.val(p)), K.of(c.val(q))
    u1, u2, v1, v2, gu, gv = (x1, x2, y1, y2, F.gx, F.gy) if along == 'x' else (y1, y2, x1, x2, F.gy, F.gx)
    n = (u2 - u1) * sign
    d = v2 - v1
    c.assume(n >= 1)
    c.assume(And(-n <= d, d <= n) if along == 'y' else And(-n < d, d < n))
    # the step that reaches the pixel followed, where the line is then, and how near
    k = (gu - u1) * sign
    at, w = c.real('at'), c.real('depth')
    c.assume(at == realv(v1) + realv(k) * (realv(d) / realv(n)))
    c.assume(w == w1 + realv(k) * ((w2 - w1) / realv(n)))
    on = And(0 <= k, k < n, realv(gv) <= at, at < realv(gv + 1))
    near = F.w0 < w + EPS
    F.row(F.gy)
    N = 'Renderer::draw_line'
    slope, dz = c.real('slope'), c.real('dz')
    c.assume(And(slope * realv(n) == realv(d), dz * realv(n) == w2 - w1))

    def inv(L):
        i = L['i']
        fx, fy, dx, dy = L['fx'], L['fy'], L['dx'], L['dy']
        fu, fv, du, dv = (fx, fy, dx, dy) if along == 'x' else (fy, fx, dy, dx)
        return [('range', And(0 <= i, i <= n, L['im'] == n)),
                ('steps', And(du == sign, dv == slope, L['dz'] == dz)),
                ('place', And(fu == realv(u1 + sign * i), fv == realv(v1) + realv(i) * slope, L['fz'] == w1 + realv(i) * dz)),
                F.sizes()] + F.rows(z3.ToInt(fy)) + [
                ('pixel followed', And(F.w() == If(And(on, k < i, near), w, F.w0), F.p() == If(And(on, k < i, near), color, F.p0)))]
    c.loop_inv(N, 0, inv)
    c.call(N, F.r, [p, q, color])
    with c.under(on, near):
        c.ensure('a nearer point of the line replaces depth and colour', And(F.w() == w, F.p() == color))
    with c.under(Not(And(on, near))):
        c.ensure('nothing else changes a pixel', F.same())


for along in 'xy':
    for sign in (1, -1):
        def f(c, along=along, sign=sign):
            segment(c, along, sign)
        contract(P, 'line, longer in %s, %s' % (along, 'forwards' if sign > 0 else 'backwards'), RE)(f)


@contract(P, 'line of no length', RE)
def _(c):
    F, K = Frame(c), Camera(c)
    p, q = c.new('Point3', 'p'), c.new('Point3', 'q')
    (x1, y1, _), (x2, y2, _) = K.of(c.val(p)), K.of(c.val(q))
    c.assume(And(x1 == x2, y1 == y2))
    c.loop_inv('Renderer::draw_line', 0, lambda L: [('never', L['i'] == L['i'])])
    c.call('Renderer::draw_line', F.r, [p, q, c.int('color')])
    c.ensure('changes nothing', F.same())


@contract(P, 'point', RE)
def _(c):
    F, K = Frame(c), Camera(c)
    p, color = c.new('Point3', 'p'), c.int('color')
    x, y, w = K.of(c.val(p))
    F.row(y)
    c.call('Renderer::draw_pixel', F.r, [p, color])
    hit = And(F.gx == x, F.gy == y, F.w0 < w)
    with c.under(hit):
        c.ensure('a nearer point replaces depth and colour', And(F.w() == w, F.p() == color))
    with c.under(Not(hit)):
        c.ensure('nothing else changes a pixel', F.same())


def blank(c, F):
    N = 'Renderer::clear'
    rest = lambda j, i: Or(F.gy < j, And(F.gy == j, F.gx < i))
    c.lemma('rows are inside the buffers', And(0 <= F.gy * F.X, F.gy * F.X + F.X <= F.X * F.Y))
    rows = F.rows
    bg = c.val(F.r).f['_iBackgroundColor']
    done = lambda d: ('pixel followed', Implies(d, And(F.w() == 0, F.p() == bg)))
    c.loop_inv(N, 0, lambda L: [('range', And(0 <= L['j'], L['j'] <= F.Y)), F.sizes()] + rows(L['j']) + [done(F.gy < L['j'])])
    c.loop_inv(N, 1, lambda L: [('range', And(0 <= L['i'], L['i'] <= F.X, 0 <= L['j'], L['j'] < F.Y)), F.sizes()] + rows(L['j']) + [done(rest(L['j'], L['i']))])
    return bg


@contract(P, 'clearing', RE)
def _(c):
    F = Frame(c)
    bg = blank(c, F)
    c.call('Renderer::clear', F.r)
    c.ensure('every pixel is the background, infinitely far', And(F.w() == 0, F.p() == bg))


@contract(P, 'a new frame', RE)
def _(c):
    F, ex = Frame(c), c.ex
    cleared = c.obj(I(0), 'cleared')

    def clear(ex, this, args, fn):
        f = ex.rd(this).f
        pix, w = f['_pixelBuffer'], f['_wBuffer']
        if not (isinstance(pix, Ptr) and isinstance(w, Ptr) and pix.lv.same(F.pix) and not w.lv.same(F.pix)):
            raise Unsupported('buffers of a new renderer')
        c.ensure('the frame has the size asked for', And(f['_Xmax'] == F.X, f['_Ymax'] == F.Y))
        c.ensure('draws into the pixels given', pix.off == 0)
        c.ensure('and has a depth for each pixel', And(w.off == 0, ex.rd(w.lv).len() == F.X * F.Y))
        ex.wr(cleared, ex.rd(cleared) + 1)
    ex.handlers[c.fn('Renderer::clear').mangled] = clear
    ex.used_contracts.add('Renderer::clear (above)')
    r = c.construct('Renderer', 'void (int *, int, int)', [Ptr(F.pix, I(0)), F.X, F.Y])
    c.ensure('is cleared', ex.rd(cleared) == 1)
    f = c.val(r).f
    c.ensure('and stays so', And(f['_Xmax'] == F.X, f['_Ymax'] == F.Y))
    b = c.int('background')
    c.call('Renderer::set_background', r, [b])
    c.ensure('the background is the one asked for', c.val(r).f['_iBackgroundColor'] == b)


@contract(P, 'mesh', RE)
def _(c):
    F, ex = Frame(c), c.ex
    m = Mesh_(c, 'm')
    nt, mc = m.nt(), m.color()
    color, edges = c.int('color'), z3.Bool('edges')
    T = c.fresh_int('T', 0, nt)
    live = Not(m.dead(T))
    co = [m.vert(x) for x in m.tri(T)]
    hit, cur, drawn, lines, ok = [c.obj(I(0), n) for n in ('hit', 'cur', 'drawn', 'lines', 'ok')]
    seen = z3.Function(fresh_name('visible'), z3.IntSort(), z3.BoolSort())
    N = 'Renderer::draw_mesh'
    number = lambda: frame_var(c, N, 'i')

    def face(ex, this, args, fn):
        i = number()
        if not ex.quiet:
            c.ensure('only live triangles are drawn', And(0 <= i, i < nt, Not(m.dead(i))))
            for k, (p, v) in enumerate(zip(args[:3], [m.vert(x) for x in m.tri(i)])):
                c.ensure('corner %d of the triangle' % k, V.of(ex.rd(p) if not isinstance(p, Struct) else p).eq(v))
            c.ensure('in the colour asked for, or that of the mesh', args[3] == If(color == -1, mc, color))
            c.ensure('faces turned away are not drawn', Not(boolv(args[4])) if len(args) > 4 else z3.BoolVal(True))
        ex.wr(hit, ex.rd(hit) + B(i == T))
        return seen(i)

    def edge(ex, this, args, fn):
        i = number()
        if not ex.quiet:
            vs = [m.vert(x) for x in m.tri(i)]
            p, q = [V.of(ex.rd(a) if not isinstance(a, Struct) else a) for a in args[:2]]
            c.ensure('lines are edges of a visible face, in black', And(Or(*[And(p.eq(a), q.eq(b)) for a in vs for b in vs]), args[2] == 0, seen(i), edges))
        ex.wr(lines, ex.rd(lines) + B(i == T))
    ex.handlers[c.fn('Renderer::draw_triangle_1color').mangled] = face
    ex.handlers[c.fn('Renderer::draw_line').mangled] = edge
    ex.used_contracts.add('Renderer::draw_triangle_1color, Renderer::draw_line (above)')
    c.loop_inv(N, 0, lambda L: [('range', And(0 <= L['i'], L['i'] <= nt)), ('faces so far', ex.rd(hit) == B(And(live, T < L['i']))),
                                ('edges so far', ex.rd(lines) == If(And(live, T < L['i'], edges, seen(T)), I(3), I(0)))])
    old = Snap(c)
    c.call(N, F.r, [m.lv, edges, color])
    c.ensure('every live triangle is drawn once', ex.rd(hit) == B(live))
    c.ensure('with its edges when asked for', ex.rd(lines) == If(And(live, edges, seen(T)), I(3), I(0)))
    mesh_frame(c, m, old, nv=0, nt=0)


@contract(P, 'polyline', RE)
def _(c):
    F, ex = Frame(c), c.ex
    pl = c.new('std::vector<Point3>', 'pl')
    n = c.val(pl).len()
    c.assume(n < 2 ** 30)
    color = c.int('color')
    before = c.val(pl)
    T = c.fresh_int('T', 0, n - 1)
    hit, cnt = c.obj(I(0), 'hit'), c.obj(I(0), 'cnt')

    def edge(ex, this, args, fn):
        k = ex.rd(cnt)
        if not ex.quiet:
            p, q = [V.of(ex.rd(a) if not isinstance(a, Struct) else a) for a in args[:2]]
            c.ensure('lines join neighbours in order', And(p.eq(V.of(c.at(before, k))), q.eq(V.of(c.at(before, k + 1))), k + 1 < n, args[2] == color))
        ex.wr(hit, ex.rd(hit) + B(k == T))
        ex.wr(cnt, k + 1)
    ex.handlers[c.fn('Renderer::draw_line').mangled] = edge
    ex.used_contracts.add('Renderer::draw_line (above)')
    c.loop_inv('Renderer::draw_polyline', 0, lambda L: [('range', And(1 <= L['i'], L['i'] <= n, ex.rd(cnt) == L['i'] - 1)), ('lines so far', ex.rd(hit) == B(T < L['i'] - 1))])
    c.call('Renderer::draw_polyline', F.r, [pl, color])
    c.ensure('one line between each point and the next', Implies(n >= 2, c.of(T, ex.rd(hit) == 1)))
    c.ensure('as many as there are', Implies(n >= 2, ex.rd(cnt) == n - 1))
    c.ensure('nothing for fewer points', Implies(n < 2, ex.rd(cnt) == 0))
