from .common import *
from .C21 import at_entry, B
from vcg.symex import LVIte
P = 'C22'
IM = ['ImageUtil.cpp', 'ImageGenerator.cpp']
BIG = 2 ** 31 - 1


class Img:
    """an image of any size, made by the real constructor"""

    def __init__(self, c, name='im', planes=None, mn=0):
        self.c = c
        self.W, self.H = [c.int(name + x, mn) for x in ('_w', '_h')]
        self.P = I(planes) if planes else c.int(name + '_p', 1)
        c.assume(And(self.W * self.H * self.P <= BIG, self.W <= BIG, self.H <= BIG, self.P <= BIG, self.W * self.P <= BIG))
        self.lv = c.construct('Image', 'void (int, int, int)', [self.W, self.H, self.P])

    def pos(self, n='g'):
        c = self.c
        x, y, p = [c.fresh_int(n + x, 0, m) for x, m in zip('xyp', (self.W, self.H, self.P))]
        line = c.fresh_int(n + 'line')
        c.assume(line == self.W * self.P)
        c.lemma('bytes of the rows in front', And(0 <= y * line, y * line <= (self.H - 1) * line))
        return [x, y, p]

    def inside(self, x, y, p):
        return And(0 <= x, x < self.W, 0 <= y, y < self.H, 0 <= p, p < self.P)


def offsets(c, im, q):
    """byte offset of a position through each access path"""
    r = []
    for f, const in (('pixel', False), ('pixel', True)):
        p = c.call_lv('Image::' + f, im.lv, q, const=const)
        if not isinstance(p, Ptr) or p.off is None:
            raise Unsupported('the address of a pixel is not an offset in the buffer')
        r.append(p.off)
    return r


@contract(P, 'every position has its own byte inside the buffer', IM)
def _(c):
    im = Img(c)
    a, b = im.pos('a'), im.pos('b')
    W, H, N = im.W, im.H, im.P
    c.ensure('the image has the size asked for', And(c.call('Image::width', im.lv) == W, c.call('Image::height', im.lv) == H, c.call('Image::planes', im.lv) == N))
    c.ensure('and that many bytes', c.call('Image::size', im.lv) == W * H * N)
    oa, ob = offsets(c, im, a), offsets(c, im, b)
    c.ensure('reading and writing use the same address', And(oa[0] == oa[1]))
    # (y*W + x)*N + p: nonlinear steps, one at a time
    la, lb = a[1] * W + a[0], b[1] * W + b[0]
    for n, (q, l, o) in {'first': (a, la, oa[0]), 'second': (b, lb, ob[0])}.items():
        c.lemma('address of the %s position' % n, o == l * N + q[2])
        c.lemma('rows before the %s' % n, q[1] * W <= (H - 1) * W)
        c.lemma('pixels before the %s' % n, And(0 <= q[1] * W, 0 <= l, l <= W * H - 1))
        c.lemma('bytes before the %s' % n, And(0 <= l * N, l * N <= (W * H - 1) * N))
        c.ensure('inside the buffer (%s)' % n, And(0 <= o, o < W * H * N))
    # same address: same pixel, then same row
    with c.under(oa[0] == ob[0]):
        c.lemma('not a later pixel', Implies(la > lb, (la - lb) * N >= N))
        c.lemma('not an earlier pixel', Implies(la < lb, (lb - la) * N >= N))
        c.lemma('same pixel number', And(la == lb, a[2] == b[2]))
        c.lemma('not a later row', Implies(a[1] > b[1], (a[1] - b[1]) * W >= W))
        c.lemma('not an earlier row', Implies(a[1] < b[1], (b[1] - a[1]) * W >= W))
        c.ensure('different positions have different bytes', And(*[x == y for x, y in zip(a, b)]))


@contract(P, 'reading and writing a pixel use its byte', IM)
def _(c):
    im = Img(c)
    c.ex.wr(im.lv.fld('_data'), c.sym('std::vector<unsigned char>', 'bytes'))
    c.assume(c.ex.rd(im.lv.fld('_data')).len() == im.W * im.H * im.P)
    q = im.pos()
    p = c.call_lv('Image::pixel', im.lv, q, const=True)
    c.ex.check_bounds = False       # proved above
    c.ex.used_contracts.add('Image::pixel (inside the buffer: above)')
    v = c.ex.rd(c.ex.deref(p))
    c.ensure('reading gives the byte of the position', c.call('Image::operator()', im.lv, q, const=True) == v)
    c.ensure('so does the writable access', c.call('Image::operator()', im.lv, q, const=False) == v)
    w = c.int('w', 0, 255)
    c.ex.wr(c.call_lv('Image::operator()', im.lv, q, const=False), w)
    c.ensure('a value written is read back', And(c.call('Image::operator()', im.lv, q, const=True) == w, c.ex.rd(c.ex.deref(c.call_lv('Image::pixel', im.lv, q, const=False))) == w))
    k = c.fresh_int('k', 0, im.W * im.H * im.P)
    with c.under(k != p.off):
        c.ensure('no other byte changes', c.at(c.ex.rd(im.lv.fld('_data')), k) == c.at(c.sym('std::vector<unsigned char>', 'bytes'), k))


def track(c, im, g, word=False):
    """the real accessors by their contract (distinct positions, distinct bytes: above): the pixel at the ghost position g is an object
    of its own, every other position is somewhere else"""
    ex = c.ex
    init = z3.Function('pixel_of_' + str(len(ex.handlers)), *[z3.IntSort()] * 4)
    cell = c.obj(init(*g), 'tracked')
    c.assume(And(0 <= init(*g), init(*g) <= 255) if not word else z3.BoolVal(True))
    count = c.obj(I(0), 'writes')

    def mine(this):
        return (this.root, this.path) == (im.lv.root, im.lv.path)
    im.cell, im.count, im.init = cell, count, init
    im.ok = mine
    return cell


def accessors(c, ims):
    """handlers for operator() and pixel over the tracked images"""
    ex = c.ex

    def find(this):
        for im in ims:
            if im.ok(this):
                return im
        raise Unsupported('an image that is not under contract')

    def place(ex, this, args):
        im = find(this)
        q = list(args[:3])
        if not ex.quiet:
            c.ensure('positions accessed are inside the image', im.inside(*q))
        same = And(*[x == y for x, y in zip(q, im.g)])
        other = c.obj(im.init(*q), 'elsewhere')
        if im.byte:
            ex.assume(And(0 <= im.init(*q), im.init(*q) <= 255))
        im.at = q
        if getattr(im, 'seen', None):
            im.seen(q)
        return im, same, other

    def ref(ex, this, args, fn):
        im, same, other = place(ex, this, args)
        return LVIte(same, im.cell, other)

    def rd(ex, this, args, fn):
        im, same, other = place(ex, this, args)
        return If(same, ex.rd(im.cell), im.init(*im.at))

    def ptr(ex, this, args, fn):
        im, same, other = place(ex, this, args)
        if not im.byte and not ex.quiet:
            c.ensure('a word is stored over the four planes of the pixel', And(im.at[2] == 0, im.P == 4))
        return PIte(same, Ptr(im.cell), Ptr(other))
    ex.handlers[c.fn('Image::operator()', const=False).mangled] = ref
    ex.handlers[c.fn('Image::operator()', const=True).mangled] = rd
    ex.handlers[c.fn('Image::pixel', const=False).mangled] = ptr
    ex.used_contracts.add('Image::operator(), Image::pixel (each position its own byte: above)')


@contract(P, 'conversion to grey', IM)
def _(c):
    a = Img(c, 'in')
    c.assume(a.P >= 3)
    b = Img(c, 'out', mn=0)
    F = 'ImageUtil::convert_to_bw'
    W, H = a.W, a.H
    gx, gy = c.fresh_int('gx', 0, W), c.fresh_int('gy', 0, H)
    a.g, b.g = (gx, gy, I(0)), (gx, gy, I(0))
    for im in (a, b):
        im.byte = True
        track(c, im, im.g)
    ex = c.ex
    # after resize the result has the size of the input
    b.W, b.H, b.P = W, H, I(1)
    accessors(c, [a, b])
    for k in range(3):
        c.assume(And(0 <= a.init(gx, gy, k), a.init(gx, gy, k) <= 255))
    want = (a.init(gx, gy, 0) + a.init(gx, gy, 1) + a.init(gx, gy, 2)) / 3
    r = lambda: ex.rd(b.cell)
    c.loop_inv(F, 0, lambda L: [('range', And(0 <= L['i'], L['i'] <= W)), ('columns done', Implies(gx < L['i'], r() == want)), ('input', ex.rd(a.cell) == a.init(*a.g))])
    c.loop_inv(F, 1, lambda L: [('range', And(0 <= L['j'], L['j'] <= H)), ('columns done', Implies(gx < L['i'], r() == want)), ('rows done', Implies(And(gx == L['i'], gy < L['j']), r() == want)), ('input', ex.rd(a.cell) == a.init(*a.g))])
    c.call(F, None, [a.lv, b.lv])
    g = lambda f: c.call('Image::' + f, b.lv)
    c.ensure('the result has one plane and the size of the input', And(g('width') == W, g('height') == H, g('planes') == 1))
    c.ensure('each pixel is the mean of its three colours', r() == want)
    c.ensure('the input is only read', ex.rd(a.cell) == a.init(*a.g))
    c.ensure('and keeps its size', And(c.call('Image::width', a.lv) == W, c.call('Image::height', a.lv) == H, c.call('Image::planes', a.lv) == a.P))


@contract(P, 'scaling of the values', IM)
def _(c):
    a = Img(c, 'im')
    F = 'ImageUtil::scale'
    a.g = a.pos()
    a.byte = True
    track(c, a, a.g)
    s = c.real('s')
    ex = c.ex
    # the cast of a double to a byte is only defined inside the range of a byte
    c.assume(And(s >= 0, 255 * s < 255))
    accessors(c, [a])
    want = z3.ToInt(z3.ToReal(a.init(*a.g)) * s + z3.Q(1, 2))
    gx, gy, gp = a.g
    r = lambda d: ex.rd(a.cell) == If(d, want, a.init(*a.g))
    c.loop_inv(F, 0, lambda L: [('range', And(0 <= L['i'], L['i'] <= a.W)), ('columns done', r(gx < L['i']))])
    c.loop_inv(F, 1, lambda L: [('range', And(0 <= L['j'], L['j'] <= a.H)), ('rows done', r(Or(gx < L['i'], And(gx == L['i'], gy < L['j']))))])
    c.loop_inv(F, 2, lambda L: [('range', And(0 <= L['p'], L['p'] <= a.P)), ('planes done', r(Or(gx < L['i'], And(gx == L['i'], gy < L['j']), And(gx == L['i'], gy == L['j'], gp < L['p']))))])
    c.call(F, None, [a.lv, s])
    c.ensure('each value is the rounded product, once', ex.rd(a.cell) == want)
    c.ensure('the size is kept', And(c.call('Image::width', a.lv) == a.W, c.call('Image::height', a.lv) == a.H, c.call('Image::planes', a.lv) == a.P))


@contract(P, 'export to numbers', IM)
def _(c):
    a = Img(c, 'im')
    W, H = a.W, a.H
    gx, gy = c.fresh_int('gx', 0, W), c.fresh_int('gy', 0, H)
    a.g = (gx, gy, I(0))
    a.byte = True
    track(c, a, a.g)
    accessors(c, [a])
    ex = c.ex
    v = c.new('std::vector<double>', 'numbers')
    k = gy + gx * H

    def seen(q):
        x, y = q[0], q[1]
        if not ex.quiet:
            c.lemma('a later column', Implies(x > gx, (x - gx) * H >= H))
            c.lemma('an earlier column', Implies(x < gx, (gx - x) * H >= H))
            c.lemma('place in the array', And(x * H <= (W - 1) * H, y + x * H < W * H))
            c.lemma('which is the size at least', W * H <= W * H * a.P)
            c.lemma('own place in the array', (y + x * H == k) == And(x == gx, y == gy))
    a.seen = seen
    c.lemma('place', And(0 <= gx * H, gx * H <= (W - 1) * H, k < W * H, W * H <= W * H * a.P))
    F = 'Image::to_double'
    ok = lambda d: Implies(d, c.at(ex.rd(v), k) == realv(a.init(*a.g)))
    n = lambda: ('size', ex.rd(v).len() == W * H * a.P)
    c.loop_inv(F, 0, lambda L: [n(), ('range', And(0 <= L['ligne'], L['ligne'] <= W)), ('columns done', ok(gx < L['ligne'])), ('image', ex.rd(a.cell) == a.init(*a.g))])
    c.loop_inv(F, 1, lambda L: [n(), ('range', And(0 <= L['colonne'], L['colonne'] <= H)), ('rows done', ok(Or(gx < L['ligne'], And(gx == L['ligne'], gy < L['colonne'])))), ('image', ex.rd(a.cell) == a.init(*a.g))])
    c.call(F, a.lv, [v])
    c.ensure('a number for each byte', c.val(v).len() == W * H * a.P)
    c.ensure('column by column, each pixel once', c.at(c.val(v), k) == realv(a.init(*a.g)))
    c.ensure('the image is only read', ex.rd(a.cell) == a.init(*a.g))


def generator(c, F, args, want, extra=None):
    a = Img(c, 'im')                        # any image before
    W, H = c.int('width', 0), c.int('height', 0)
    c.assume(And(W * H * 4 <= BIG, W <= 2 ** 28, H <= 2 ** 28))
    gx, gy = c.fresh_int('gx', 0, W), c.fresh_int('gy', 0, H)
    a.g = (gx, gy, I(0))
    a.byte = False
    track(c, a, a.g, word=True)
    a.W, a.H, a.P = W, H, I(4)
    accessors(c, [a])
    ex = c.ex
    done = lambda d: Implies(d, want(gx, gy, ex.rd(a.cell)))
    c.loop_inv(F, 0, lambda L: [('range', And(0 <= L['w'], L['w'] <= W)), ('columns done', c.of(gy, done(gx < L['w'])))])
    c.loop_inv(F, 1, lambda L: [('range', And(0 <= L['h'], L['h'] <= H)), ('rows done', done(Or(gx < L['w'], And(gx == L['w'], gy < L['h']))))])
    for x in (W, H):          # rounding to single precision keeps the sign
        c.assume(Implies(x > 0, F32(realv(x)) > 0))
    if extra:
        extra(c)
    c.call(F, None, [a.lv, W, H] + args)
    c.ensure('the image has the size asked for and four planes', And(c.call('Image::width', a.lv) == W, c.call('Image::height', a.lv) == H, c.call('Image::planes', a.lv) == 4))
    c.ensure('every pixel has its value', c.of(gx, c.of(gy, want(gx, gy, ex.rd(a.cell)))))


@contract(P, 'triangle fractal', IM)
def _(c):
    generator(c, 'ImageGenerator::Shierpinsky', [], lambda x, y, v: v == If(c.ex.bitand(x, y) == 0, 2 ** 25 - 1, 0))


@contract(P, 'escape-time fractal: every pixel is a grey of its own count', IM)
def _(c):
    n = c.int('iterations', 0)
    c.assume(n < 2 ** 20)
    F = 'ImageGenerator::Mandelbrot'
    generator(c, F, [n], lambda x, y, v: And(v % 65793 == 0, 0 <= v, v <= 65793 * n), lambda c: c.loop_inv(F, 2, lambda L: [('left', And(0 <= L['iterMax'], L['iterMax'] <= n))], measure=lambda L: L['iterMax']))
