from .streams import *
from .C22 import Img
from .C21 import at_entry
P = 'C23'
BM = ['ImageIoBmp.cpp']
BPP = {1: 8, 3: 24, 4: 32}


class Layout:
    """what a bitmap file looks like, and where the bytes of an image are in it"""

    def __init__(self, c, n):
        self.c, self.n = c, n
        self.W, self.H = c.int("width", 1), c.int("height", 0)
        c.assume(And(self.W < 2 ** 28, self.H < 2 ** 28))
        self.row = n * self.W                       # bytes of a row
        self.pad = c.fresh_int('pad', 0, 4)         # and its padding to a multiple of four
        c.assume((self.row + self.pad) % 4 == 0)
        self.line = self.row + self.pad
        self.palette = 1024 if n == 1 else 0
        self.base = 54 + self.palette
        self.size = self.line * self.H
        c.assume(self.size + self.base < 2 ** 31)

    def header(self):
        """(position, bytes, value) of every field"""
        return [(0, 2, I(0x4D42)), (2, 4, self.base + self.size), (6, 2, I(0)), (8, 2, I(0)), (10, 4, I(self.base)), (14, 4, I(40)), (18, 4, self.W), (22, 4, self.H),
                (26, 2, I(1)), (28, 2, I(BPP[self.n])), (30, 4, I(0)), (34, 4, self.size), (38, 4, None), (42, 4, None), (46, 4, I(0)), (50, 4, I(0))]

    def color(self, k):
        """plane stored at byte k of a pixel: blue first"""
        return [[0], None, [2, 1, 0], [2, 1, 0, 3]][self.n - 1][k]


def image(c, lay, rows):
    """an image of that size; rows are reached through pixel(0, y), whose contract (C22) is that a row is W*P consecutive bytes and rows are apart"""
    im = c.construct('Image', 'void (int, int, int)', [lay.W, lay.H, I(lay.n)])
    ex = c.ex
    for const in (True, False):
        ex.handlers[c.fn('Image::pixel', const=const).mangled] = rows
    ex.used_contracts.add('Image::pixel (rows of W*P consecutive bytes, each its own: C22)')
    return im


def writing(c, lay, g):
    F = Bytes(c, g)
    ex = c.ex
    uc = parse_type('std::vector<unsigned char>')
    nm = fresh_name('row')
    px = lambda y, i: ex.symval(uc.a, nm, (y, i))

    def rows(ex, this, args, fn):
        x, y, p = args[:3]
        if not ex.quiet:
            c.ensure('rows read are rows of the image', And(x == 0, x < lay.W, p == 0, 0 <= y, y < lay.H))
        return Ptr(c.obj(Base(uc.a, lay.row, lambda i: px(y, i)), 'row'), I(0))
    im = image(c, lay, rows)
    return F, im, px


def head(c, n):
    lay = Layout(c, n)
    g = c.fresh_int('g', 0, lay.base)
    F, im, px = writing(c, lay, g)
    pal = lambda i: If((g - 54) % 4 == 3, I(0), (g - 54) / 4)
    ex = c.ex
    e = lambda L: at_entry(c, L, F.cell)
    pos, cell = lambda: ex.rd(F.pos), lambda: ex.rd(F.cell)
    N = 'ImageIoBmp::write'
    c.loop_inv(N, 0, lambda L: [('palette', And(0 <= L['i'], L['i'] <= 256, pos() == 54 + 4 * L['i'])), ('byte followed', cell() == If(And(54 <= g, g < 54 + 4 * L['i']), pal(L['i']), e(L)))])
    outer = lambda L: [('range', And(0 <= L['iY'], L['iY'] <= lay.H)), ('rows done', pos() == lay.base + lay.line * L['iY']), ('positions grow', 0 <= lay.line * L['iY']), ('byte followed', cell() == e(L))]
    outerb = lambda L: outer(L) + [('buffer', ex.rd(L['pLineOut'].lv).len() == lay.row + 3)]
    inner = lambda L: [('range', And(0 <= L['iC'], L['iC'] <= lay.row, L['iC'] % lay.n == 0)), ('buffer', ex.rd(L['pLineOut'].lv).len() == lay.row + 3)]
    for i, f in ((1, outerb), (2, inner), (3, outerb), (4, inner), (5, outer)):
        c.loop_inv(N, i, f)
    r = c.call(N, None, [Str(('out',)), Ptr(im)])
    with c.under(F.opened):
        for p, k, v in lay.header():
            for j in range(k):
                if v is not None:
                    with c.under(g == p + j):
                        c.ensure('header byte %d' % (p + j), cell() == byte_of(v, j))
        c.ensure('every byte before the pixels is written', cell() >= 0)
        if n == 1:
            c.ensure('the palette is grey', Implies(g >= 54, cell() == pal(None)))
        c.ensure('the file has the size announced', pos() == lay.base + lay.size)
    c.ensure('success is reported when the file could be opened', boolv(r) == F.opened)


def body(c, n):
    lay = Layout(c, n)
    r, x = c.fresh_int('r', 0, lay.H), c.fresh_int('x', 0, lay.W)
    k = c.fresh_int('k', 0, n)
    j = n * x + k
    g = lay.base + r * lay.line + j
    pixels(c, lay, r, x, k, j, g)


def pixels(c, lay, r, x, k, j, g):
    n = lay.n
    F, im, px = writing(c, lay, g)
    ex = c.ex
    pos, cell = lambda: ex.rd(F.pos), lambda: ex.rd(F.cell)
    y = lay.H - 1 - r
    want = {1: px(y, x), 3: px(y, n * x + 2 - k), 4: If(k == 3, I(0), px(y, n * x + If(k == 3, I(0), 2 - k)))}[n]
    N = 'ImageIoBmp::write'
    far = lambda i: And(0 <= lay.line * i, 0 <= r * lay.line, Implies(r < i, (i - r) * lay.line >= lay.line), Implies(i < r, (r - i) * lay.line >= lay.line))
    c.loop_inv(N, 0, lambda L: [('palette', And(0 <= L['i'], L['i'] <= 256, pos() == 54 + 4 * L['i'])), ('byte followed', cell() == -1)])
    outer = lambda L: [('range', And(0 <= L['iY'], L['iY'] <= lay.H)), ('rows done', pos() == lay.base + lay.line * L['iY']), ('other rows are elsewhere', far(L['iY'])), ('byte followed', cell() == If(r < L['iY'], want, I(-1)))]
    outerb = lambda L: outer(L) + [('buffer', ex.rd(L['pLineOut'].lv).len() == lay.row + 3)]
    inner = lambda L: [('range', And(0 <= L['iC'], L['iC'] <= lay.row, L['iC'] % n == 0)), ('buffer', ex.rd(L['pLineOut'].lv).len() == lay.row + 3),
                       ('pixels of the row done', Implies(And(r == L['iY'], n * x < L['iC']), c.at(ex.rd(L['pLineOut'].lv), j) == want))]
    for i, f in ((1, outerb), (2, inner), (3, outerb), (4, inner), (5, outer)):
        c.loop_inv(N, i, f)
    c.lemma('rows before', 0 <= r * lay.line)
    c.call(N, None, [Str(('out',)), Ptr(im)])
    with c.under(F.opened):
        c.ensure('each pixel is at its place: rows from the bottom, blue green red', cell() == want)


def reading(c, n):
    lay = Layout(c, n)
    F = Bytes(c)
    ex = c.ex
    c.assume(F.opened)
    c.assume(F.n == lay.base + lay.size)
    for p, k, v in lay.header():
        if v is not None:
            c.assume(F.word(I(p), k) == v)
    gx, gy = c.fresh_int('gx', 0, lay.W), c.fresh_int('gy', 0, lay.H)
    uc = parse_type('std::vector<unsigned char>')
    row = lambda nm: Base(uc.a, lay.row, lambda i: ex.symval(uc.a, nm, (i,)))
    cell = c.obj(row('tracked'), 'tracked_row')
    old = Img(c, 'before')

    def rows(ex, this, args, fn):
        x, y, p = args[:3]
        if not ex.quiet:
            c.ensure('rows written are rows of the image', And(x == 0, x < lay.W, p == 0, 0 <= y, y < lay.H))
        return Ptr(LVIte(y == gy, cell, c.obj(row(fresh_name('other')), 'elsewhere')), I(0))
    ex.handlers[c.fn('Image::pixel', const=False).mangled] = rows
    ex.used_contracts.add('Image::pixel (rows of W*P consecutive bytes, each its own: C22)')
    N = 'ImageIoBmp::read'
    pos = lambda: ex.rd(F.pos)
    fr = lay.H - 1 - gy                 # row in the file
    start = lay.base + fr * lay.line + n * gx
    raw = lambda k: F.at(start + k)
    ks = range(n)
    swap = {0: 2, 2: 0}
    px = lambda k: c.at(ex.rd(cell), n * gx + k)
    far = lambda i: And(0 <= lay.line * i, (i + 1) * lay.line == lay.line * i + lay.line, Implies(i < lay.H, (i + 1) * lay.line <= lay.size), 0 <= fr * lay.line)
    L0 = lambda: ('row', ex.rd(cell).len() == lay.row)
    want = [raw(k if n == 1 else swap.get(k, k)) for k in ks]
    good = lambda d: ('pixel followed', Implies(d, And(*[px(k) == want[k] for k in ks])))
    outer = lambda L: [('range', And(0 <= L['iY'], L['iY'] <= lay.H)), L0(), ('rows done', pos() == lay.base + lay.line * L['iY']), ('rows', far(L['iY'])), good(L['iY'] > fr)]
    inner = lambda L: [('range', And(0 <= L['iC'], L['iC'] <= lay.W)), L0(), ('row read', ex.rd(L['pLineY'].lv).len() == lay.row), ('others', Implies(L['iY'] != fr, And(*[px(k) == at_px(L, k) for k in ks]))),
                       ('pixel followed', Implies(L['iY'] == fr, And(*[px(k) == If(gx < L['iC'], want[k], raw(k)) for k in ks])))]

    def at_px(L, k):
        st = ex.st
        ex.st = L.base
        try:
            return px(k)
        finally:
            ex.st = st
    tmp = lambda L: [('padding', L['cTmp'].len() == 3)]
    outer8 = lambda L: tmp(L) + [('range', And(-1 <= L['iY'], L['iY'] < lay.H)), L0(), ('rows done', pos() == lay.base + lay.line * (lay.H - 1 - L['iY'])), ('rows', far(lay.H - 1 - L['iY'])), good(L['iY'] < gy)]
    for i in (0, 2):
        c.loop_inv(N, i, outer if i == 0 else lambda L: tmp(L) + outer(L))
        c.loop_inv(N, i + 1, inner)
    c.loop_inv(N, 4, lambda L: tmp(L) + [('palette', And(0 <= L['i'], L['i'] <= 1024, pos() == 54 + L['i']))])
    c.loop_inv(N, 5, outer8)
    c.lemma('place in the file', And(0 <= fr * lay.line, (fr + 1) * lay.line <= lay.size))
    r = c.call(N, None, [Str(('in',)), Ptr(old.lv)])
    g = lambda f: c.call('Image::' + f, old.lv)
    c.ensure('success', boolv(r))
    c.ensure('the image has the size announced', And(g('width') == lay.W, g('height') == lay.H, g('planes') == n))
    c.ensure('each pixel is taken from its place: rows from the bottom, blue green red', And(*[px(k) == want[k] for k in ks]))


for n in (1, 3, 4):
    contract(P, 'writing the header, %d plane(s)' % n, BM)(lambda c, n=n: head(c, n))
    contract(P, 'writing the pixels, %d plane(s)' % n, BM)(lambda c, n=n: body(c, n))
    contract(P, 'reading, %d plane(s)' % n, BM)(lambda c, n=n: reading(c, n))
