import re
from .streams import *
from .spline import *
from .C21 import at_entry, B, UT
P = 'C26'
SF = SUR + ['NurbsSolid.cpp', 'StepFile.cpp']
LEX = re.compile(r"\s+|'[^']*'|#\d+|#|\d+(?:\.\d*)?|[(),;=]|[A-Za-z_.$-][A-Za-z0-9_.-]*|[^\s]")


class Step(Model):
    """the text of a STEP file as tokens. Ghosts: `next`, the first id not defined yet; the place in the current list"""
    NAMES = {'CARTESIAN_POINT': 1, 'B_SPLINE_SURFACE': 2, 'B_SPLINE_SURFACE_WITH_KNOTS': 3, 'RATIONAL_B_SPLINE_SURFACE': 4, 'ADVANCED_FACE': 5, 'CLOSED_SHELL': 5,
             'MANIFOLD_SOLID_BREP': 5, 'ADVANCED_BREP_SHAPE_REPRESENTATION': 5, 'SHAPE_REPRESENTATION_RELATIONSHIP': 5}

    def __init__(self, c, first):
        super().__init__(c)
        g = lambda n, v=0: c.obj(I(v) if not is_term(v) else v, n)
        self.next = g('next', first)
        self.hash, self.open_, self.pid = g('hash'), g('open'), g('pid')
        self.sec, self.cnt, self.rows, self.need, self.sum, self.lists, self.deg = [g(x) for x in ('sec', 'cnt', 'rows', 'need', 'sum', 'lists', 'deg')]
        self.header, self.spec = {}, None
        self.literal_refs = set()

    def open(self, ex, v, args):
        return v.with_('open', self.opened)

    def r(self, ex, x):
        return ex.rd(x)

    def put(self, ex, lv, kind, x):
        if kind != 'str':
            if as_int(ex.rd(self.hash)) == 1:
                self.ident(ex, x)
            else:
                self.value(ex, realv(x))
            ex.wr(self.hash, I(0))
            return
        if not isinstance(x, Str) or not all(isinstance(p, str) for p in x.p):
            return                      # a word chosen by the data (.T. or .F.)
        for t in LEX.findall(''.join(x.p)):
            if not t.strip():
                continue
            ex.wr(self.hash, I(0))
            if t == '#':
                if not ex.quiet:
                    self.c.ensure('no reference to an id that is not defined', ex.rd(self.open_) == 0)
                ex.wr(self.hash, I(1))
            elif t[0] == '#':
                self.fixed(ex, int(t[1:]))
            elif t == '=':
                self.define(ex)
            elif t[0].isdigit():
                self.value(ex, z3.RealVal(t))
            elif t == '(':
                self.paren(ex)
            elif t == ')':
                self.close(ex)
            elif t == ',':
                ex.wr(self.need, I(0))
            elif t in self.NAMES:
                s = self.NAMES[t]
                ex.wr(self.sec, I(s))
                for z in (self.cnt, self.rows, self.need, self.sum, self.lists, self.deg) if s < 5 else ():
                    ex.wr(z, I(0))
            elif t.isupper() and t != '.UNSPECIFIED.':
                ex.wr(self.sec, I(0))

    def sect(self, ex):
        s = as_int(z3.simplify(ex.rd(self.sec)))
        if s is None:
            raise Unsupported('the part of the file written depends on the data')
        return s

    # ids
    def fixed(self, ex, k):
        if not ex.quiet:
            self.c.ensure('fixed references are to ids of the header', z3.BoolVal(10 <= k <= 14))

    def ident(self, ex, x):
        n = ex.rd(self.next)
        if not ex.quiet:
            self.c.ensure('references are to ids already defined (or the one being defined)', And(15 <= x, x <= n))
        ex.wr(self.pid, x)
        ex.wr(self.open_, If(x == n, I(1), I(0)))
        if self.sect(ex) == 5 and not ex.quiet:
            self.c.ensure('face, shell, solid and shape refer to the entity written before', Or(x == n, x == n - 2))
        if self.sect(ex) == 2:
            if not ex.quiet:
                k = ex.rd(self.cnt)
                self.c.ensure('control points are listed in grid order', x == self.spec.first + k)
            self.element(ex)

    def define(self, ex):
        n = ex.rd(self.next)
        if not ex.quiet:
            self.c.ensure('each id is defined once', And(ex.rd(self.pid) == n, ex.rd(self.open_) == 1))
        ex.wr(self.next, n + 1)
        ex.wr(self.open_, I(0))

    # lists
    def element(self, ex):
        if not ex.quiet:
            self.c.ensure('items are separated', ex.rd(self.need) == 0)
        ex.wr(self.need, I(1))
        ex.wr(self.cnt, ex.rd(self.cnt) + 1)

    def value(self, ex, v):
        s, sp = self.sect(ex), self.spec
        ens = (lambda l, f: None) if ex.quiet else self.c.ensure
        k = ex.rd(self.cnt)
        if s == 1:
            p = sp.point(ex.rd(self.next) - 1 - sp.first)
            ens('coordinates of the point', v == If(k == 0, p.x, If(k == 1, p.y, p.z)))
            ens('three of them', k < 3)
            self.element(ex)
        elif s == 2:
            d = ex.rd(self.deg)
            ens('degrees', v == realv(If(d == 0, sp.du, sp.dv)))
            ens('two of them', d < 2)
            ex.wr(self.deg, d + 1)
        elif s == 3:
            l = ex.rd(self.lists)
            ens('knot values in order', Implies(l == 2, v == c_at(self.c, sp.ku, sp.du + k)))
            ens('knot values in order (v)', Implies(l == 3, v == c_at(self.c, sp.kv, sp.dv + k)))
            ens('multiplicities are positive', Implies(l < 2, v >= 1))
            ens('four lists', l < 4)
            ex.wr(self.sum, ex.rd(self.sum) + z3.ToInt(v))
            self.element(ex)
        elif s == 4:
            ens('weights in grid order', v == sp.weight(k))
            self.element(ex)

    def paren(self, ex):
        s = self.sect(ex)
        if s in (1, 2, 4):
            if not ex.quiet:
                self.c.ensure('a row starts after a comma', ex.rd(self.need) == 0)
        if s == 3:
            ex.wr(self.cnt, I(0))
            ex.wr(self.sum, I(0))
            ex.wr(self.need, I(0))

    def close(self, ex):
        s, sp = self.sect(ex), self.spec
        ens = (lambda l, f: None) if ex.quiet else self.c.ensure
        k = ex.rd(self.cnt)
        if s == 1:
            ens('a point has three coordinates', k == 3)
            ex.wr(self.sec, I(0))
        elif s in (2, 4):
            r = ex.rd(self.rows)
            more = r < sp.nv
            ens('a row ends after its last item', Implies(more, And(k == sp.nu * (r + 1), ex.rd(self.need) == 1)))
            ex.wr(self.rows, If(more, r + 1, r))
            ex.wr(self.need, I(1))
        elif s == 3:
            l = ex.rd(self.lists)
            inner = as_int(z3.simplify(l))
            if inner is None:
                raise Unsupported('the list written depends on the data')
            if inner < 4:
                d, n = (sp.du, sp.nu) if inner % 2 == 0 else (sp.dv, sp.nv)
                ens('as many knots and multiplicities as required (list %d)' % inner, And(k == n - d + 1, ex.rd(self.need) == 1))
                if inner < 2:
                    ens('multiplicities add up (list %d)' % inner, ex.rd(self.sum) == n + d + 1)
            ex.wr(self.lists, I(inner + 1))


def c_at(c, v, i):
    return c.at(v, i)


class Spec:
    pass


def writer(c, first=None):
    w = c.construct('StepWriter')
    n = c.int('next', 15)
    c.assume(n < 2 ** 28)
    c.ex.wr(w.fld('_iItemIndent'), n)
    return w, n


@contract(P, 'a surface', SF)
def _(c):
    s = Surface(c)
    ex = c.ex
    w, n0 = writer(c)
    F = Step(c, n0)
    sp = F.spec = Spec()
    g = lambda k, **kw: c.call('NurbsSurface::' + k, s.lv, **kw)
    sp.nu, sp.nv, sp.du, sp.dv = g('nb_points_u'), g('nb_points_v'), g('degree_u'), g('degree_v')
    sp.ku, sp.kv = g('knots_u'), g('knots_v')
    pts, ws = g('points', const=True), g('weights', const=True)
    sp.first = n0
    sp.point = lambda k: V.of(c.at(pts, k))
    sp.weight = lambda k: c.at(ws, k)
    nu, nv = sp.nu, sp.nv
    c.assume(And(nu * nv < 2 ** 28, nu < 2 ** 28, nv < 2 ** 28))
    before = c.val(s.lv)
    N = 'StepWriter::write'
    r = lambda x: ex.rd(x)
    ind = lambda: ex.rd(w.fld('_iItemIndent'))
    same = lambda L: ('counter', And(ind() == r(F.next), r(F.open_) == 0))
    kept = lambda L, *xs: [('kept %d' % i, r(x) == at_entry(c, L, x)) for i, x in enumerate(xs)]
    c.loop_inv(N, 0, lambda L: [same(L), ('range', And(0 <= L.position(), L.position() <= nu * nv)), ('points so far', And(r(F.next) == n0 + L.position(), r(F.sec) == 0))], measure=lambda L: nu * nv - L.position())

    def grid(L, refs):
        j = L['j']
        l = [('range', And(0 <= j, j <= nv)), ('rows so far', And(r(F.rows) == j, r(F.cnt) == nu * j, r(F.need) == If(And(j == nv, nv > 0), I(1), I(0))))] + kept(L, F.next, F.sec, F.deg, F.open_)
        return l + ([('points listed', L['iPointIndex'] == n0 + nu * j)] if refs else [])

    def row(L, refs):
        i, j = L['i'], L['j']
        l = [('range', And(0 <= i, i <= nu)), ('items so far', And(r(F.cnt) == nu * j + i, r(F.need) == If(i == nu, I(1), I(0))))] + kept(L, F.next, F.sec, F.rows, F.deg, F.open_)
        return l + ([('points listed', L['iPointIndex'] == n0 + nu * j + i), ('of the grid', And(0 <= nu * j, nu * j + nu <= nu * nv))] if refs else [('of the grid', And(0 <= nu * j, nu * j + nu <= nu * nv))])
    c.loop_inv(N, 1, lambda L: grid(L, True))
    c.loop_inv(N, 2, lambda L: row(L, True))
    for i, n, d in ((3, nu, sp.du), (4, nv, sp.dv)):
        c.loop_inv(N, i, lambda L, n=n, d=d: [('range', And(0 <= L['i'], L['i'] <= n - d - 1)), ('multiplicities so far', And(r(F.cnt) == L['i'] + 1, r(F.sum) == d + 1 + L['i'], r(F.need) == 0))] + kept(L, F.next, F.sec, F.lists, F.open_))
    for i, n, d in ((5, nu, sp.du), (6, nv, sp.dv)):
        c.loop_inv(N, i, lambda L, n=n, d=d: [('range', And(d <= L['i'], L['i'] <= n + 1)), ('knots so far', And(r(F.cnt) == L['i'] - d, r(F.need) == B(L['i'] == n + 1)))] + kept(L, F.next, F.sec, F.lists, F.open_))
    c.loop_inv(N, 7, lambda L: grid(L, False))
    c.loop_inv(N, 8, lambda L: row(L, False))
    # facts used at the end of each part
    marks = {}
    c.call(N, w, [s.lv], params=['const NurbsSurface &'])
    c.ensure('all points and six entities are defined', r(F.next) == n0 + nu * nv + 6)
    c.ensure('nothing refers to an undefined id', r(F.open_) == 0)
    c.ensure('the counter is the first undefined id', ind() == r(F.next))
    c.ensure('all rows are complete', And(r(F.rows) == nv, r(F.cnt) == nu * nv))
    c.unchanged('the surface is only read', s.lv, before)


class Header(Model):
    """fixed text"""

    def __init__(self, c):
        super().__init__(c)
        self.out = c.obj(Str(()), 'text')

    def put(self, ex, lv, kind, x):
        if kind != 'str' or not isinstance(x, Str) or not all(isinstance(p, str) for p in x.p):
            raise Unsupported('text that is not a literal')
        ex.wr(self.out, Str(ex.rd(self.out).p + x.p))

    def string(self):
        return ''.join(self.c.ex.rd(self.out).p)


@contract(P, 'header and footer', SF)
def _(c):
    w, _ = writer(c)
    F = Header(c)
    c.call('StepWriter::open', w, [Str(('out',))])
    h = F.string()
    d = [int(x) for x in re.findall(r'#(\d+)\s*=', h)]
    u = [int(x) for x in re.findall(r'#(\d+)(?!\s*=|\d)', h)]
    c.ex.used_contracts.add('StepWriter::write (refers to ids of the header only by number, from 10 to 14: above)')
    c.ensure('the header defines each of its ids once', z3.BoolVal(sorted(d) == [10, 11, 12, 13, 14]))
    c.ensure('and refers only to them', z3.BoolVal(set(u) <= set(d)))
    c.ensure('the ids of the entities start after them', And(c.val(w).f['_iItemIndent'] >= 15))
    c.ensure('sections are opened', z3.BoolVal(h.startswith('ISO-10303-21;') and h.index('HEADER;') < h.index('ENDSEC;') < h.index('DATA;')))
    c.ex.wr(F.out, Str(()))
    c.call('StepWriter::close', w)
    c.ensure('closed', Not(c.call('StepWriter::is_open', w)))


@contract(P, 'a solid', SF)
def _(c):
    n, ex = c.construct('NurbsSolid'), c.ex
    f = c.sym('std::vector<NurbsSurface>', 'faces')
    k = f.len()
    c.assume(k < 2 ** 20)
    sv = c.val(n)
    ex.wr(n, Struct(sv.cls, dict(sv.f, _surfaces=f)))
    w, n0 = writer(c)
    Header(c)
    T = c.fresh_int('T', 0, k)
    hit, cnt = c.obj(I(0), 'hit'), c.obj(I(0), 'cnt')

    def one(ex, this, args, fn):
        i = ex.rd(cnt)
        if not ex.quiet:
            c.ensure('the next surface is written', c.eq(c.call('NurbsSurface::points', args[0], const=True), c.at(f, i).f['_points']))
        ex.wr(hit, ex.rd(hit) + B(i == T))
        ex.wr(cnt, i + 1)
    ex.handlers[c.fn('StepWriter::write', ['const NurbsSurface &']).mangled] = one
    ex.used_contracts.add('StepWriter::write(surface) (above)')
    c.loop_inv('StepWriter::write', 0, lambda L: [('surfaces so far', And(0 <= L.position(), L.position() <= k, ex.rd(cnt) == L.position())), ('each once', ex.rd(hit) == B(T < L.position()))])
    c.call('StepWriter::write', w, [n], params=['const NurbsSolid &'])
    c.ensure('every surface exactly once', c.of(T, ex.rd(hit) == 1))
    c.ensure('as many as there are', ex.rd(cnt) == k)
