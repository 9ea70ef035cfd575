from .streams import *
from .C21 import B
P = 'C25'
OB = MESH + ['OBJFile.cpp']


def writer(c):
    """a writer that has written `before` vertices to the file it has open"""
    w = c.construct('OBJWriter')
    n = c.int('before', 0)
    c.assume(n < 2 ** 29)
    s = c.val(w)
    c.ensure('a new writer has written nothing', s.f['_verticesCount'] == 0)
    c.ex.wr(w.fld('_verticesCount'), n)
    return w, n


class Out(Text):
    def __init__(self, c, nv, vertex, colour, face, item=None):
        super().__init__(c, ('l ',) if item else ())
        self.vertex, self.colour, self.face, self.it, self.nvert = vertex, colour, face, item, nv
        self.nv, self.nl, self.nlists = c.obj(I(0), 'vertices'), c.obj(I(0), 'items'), c.obj(I(0), 'lists')

    def on_line(self, ex, p):
        c = self.c
        num = [x for x in p if not isinstance(x, str)]
        shape = ''.join(x if isinstance(x, str) else '%' for x in p).split()
        if not shape:
            return
        if shape in (['v'] + ['%'] * 3, ['v'] + ['%'] * 6):
            k = ex.rd(self.nv)
            if not ex.quiet:
                c.ensure('vertex lines are the vertices in order', And(k < self.nvert, V(*[realv(x) for _, x in num[:3]]).eq(self.vertex(k))))
                c.ensure('with the colour of the mesh, if it has one', self.colour([realv(x) for _, x in num[3:]]))
            ex.wr(self.nv, k + 1)
        elif shape == ['f', '%', '%', '%'] and self.face:
            if not ex.quiet:
                c.ensure('faces come after the vertices', ex.rd(self.nv) == self.nvert)
            self.face(ex, [x for _, x in num])
        else:
            raise Unsupported('a line of the form %s' % ' '.join(shape))

    def on_item(self, ex, l, x):
        k = ex.rd(self.nl)
        if not ex.quiet:
            self.c.ensure('the polyline comes after its vertices', ex.rd(self.nv) == self.nvert)
            self.c.ensure('the polyline refers to its vertices in order', And(k < self.nvert, x == self.it(k)))
        ex.wr(self.nl, k + 1)

    def on_end(self, ex, l):
        ex.wr(self.nlists, ex.rd(self.nlists) + 1)


@contract(P, 'writing a mesh', OB)
def _(c):
    m = Mesh_(c, 'm')
    w, n0 = writer(c)
    ex = c.ex
    nv, nt = m.nv(), m.nt()
    col = m.color()
    T = c.fresh_int('T', 0, nt)
    hit, last = c.obj(I(0), 'hit'), c.obj(I(-1), 'last')
    N = 'OBJWriter::write'

    def face(ex, ids):
        i = frame_var(c, N, 'i')
        if not ex.quiet:
            c.ensure('a face refers to the vertices of its own triangle, counted over the file', And(*[a == n0 + 1 + b for a, b in zip(ids, m.tri(i))]))
            c.ensure('of a live triangle', Not(m.dead(i)))
            c.ensure('in order', i > ex.rd(last))
        ex.wr(last, i)
        ex.wr(hit, ex.rd(hit) + B(i == T))
    rgb = [realv((col / 65536) % 256) / 255, realv((col / 256) % 256) / 255, realv(col % 256) / 255]
    colour = lambda l: col == -1 if not l else And(col != -1, *[a == b for a, b in zip(l, rgb)])
    F = Out(c, nv, m.vert, colour, face)
    old = Snap(c)
    pv = lambda: ex.rd(F.nv)
    quiet_ = lambda: ('line complete', z3.BoolVal(True))
    fn = lambda i, f: ex.invs.__setitem__((N + '(const Mesh &)', i), f)
    first = lambda L: [('range', And(0 <= L['i'], L['i'] <= nv)), ('vertices so far', pv() == L['i']), ('no face yet', And(ex.rd(hit) == 0, ex.rd(last) == -1))]
    second = lambda L: [('range', And(0 <= L['i'], L['i'] <= nt)), ('vertices', pv() == nv), ('faces so far', And(ex.rd(last) < L['i'], ex.rd(hit) == B(And(T < L['i'], Not(m.dead(T))))))]
    c.loop_inv(N, 0, first)
    c.loop_inv(N, 1, second)
    c.call(N, w, [m.lv], params=['const Mesh &'])
    c.ensure('every vertex is written', pv() == nv)
    c.ensure('every live triangle is written exactly once, no other', ex.rd(hit) == B(Not(m.dead(T))))
    c.ensure('no line is left unfinished', And(ex.rd(F.mode) == 0, z3.BoolVal(not ex.rd(F.pending).p)))
    c.ensure('the vertices written are counted', c.val(w).f['_verticesCount'] == n0 + nv)
    mesh_frame(c, m, old, nv=0, nt=0)


@contract(P, 'writing a polyline', OB)
def _(c):
    w, n0 = writer(c)
    ex = c.ex
    p = c.new('std::vector<Point3>', 'polyline')
    v = c.val(p)
    n = v.len()
    c.assume(n < 2 ** 29)
    N = 'OBJWriter::write'
    F = Out(c, n, lambda k: V.of(c.at(v, k)), lambda l: z3.BoolVal(not l), None, lambda k: n0 + 1 + k)
    c.loop_inv(N, 0, lambda L: [('range', And(0 <= L['i'], L['i'] <= n)), ('vertices so far', ex.rd(F.nv) == L['i']), ('no reference yet', ex.rd(F.nl) == 0)])
    c.loop_inv(N, 1, lambda L: [('range', And(0 <= L['i'], L['i'] <= n)), ('references so far', ex.rd(F.nl) == L['i'])])
    c.call(N, w, [p], params=['const vector<Point3> &'])
    c.ensure('every vertex is written', ex.rd(F.nv) == n)
    c.ensure('and referred to', ex.rd(F.nl) == n)
    c.ensure('the line ends: nothing written later belongs to it', And(ex.rd(F.mode) == 0, z3.BoolVal(not ex.rd(F.pending).p)))
    c.ensure('the vertices written are counted', c.val(w).f['_verticesCount'] == n0 + n)
    c.unchanged('the polyline is only read', p, v)


@contract(P, 'opening a file', OB)
def _(c):
    w, n0 = writer(c)
    Text(c)
    c.call('OBJWriter::open', w, [Str(('out',))])
    c.ex.used_contracts.add('OBJWriter::write (counts the vertices written: above)')
    c.ensure('nothing is written to it yet', c.val(w).f['_verticesCount'] == 0)


@contract(P, 'saving a mesh', OB)
def _(c):
    m = Mesh_(c, 'm')
    ex = c.ex
    F = Text(c)
    done = c.obj(I(0), 'written')

    def wr(ex, this, args, fn):
        if not ex.quiet:
            c.ensure('the mesh given is written, to the file opened, first', And(z3.BoolVal((args[0].root, args[0].path) == (m.lv.root, m.lv.path)), ex.rd(this).f['_f'].f['open'], ex.rd(this).f['_verticesCount'] == 0))
        ex.wr(done, ex.rd(done) + 1)
    ex.handlers[c.fn('OBJWriter::write', ['const Mesh &']).mangled] = wr
    ex.used_contracts.add('OBJWriter::write (above)')
    r = c.call('OBJFile::save', None, [Str(('out',)), m.lv])
    c.ensure('written once when the file could be opened', ex.rd(done) == B(F.opened))
    c.ensure('which is reported', boolv(r) == F.opened)


@contract(P, 'loading', OB)
def _(c):
    m = Mesh_(c, 'm')
    F = Lines(c, ['v', 'f'])
    ex = c.ex
    z = z3.IntSort()
    RV, RF = z3.Function('vertex_lines_before', z, z), z3.Function('face_lines_before', z, z)
    T = c.fresh_int('T', 0, F.N)

    def facts(i):
        """definition of the counts; induction lemmas about them; references of a well-formed file are to vertices before"""
        ex.assume(And(RV(0) == 0, RF(0) == 0))
        for k in (i, T):
            ex.assume(Implies(And(0 <= k, k < F.N), And(RV(k + 1) == RV(k) + B(F.kind(k) == 1), RF(k + 1) == RF(k) + B(F.kind(k) == 2))))
            ex.assume(Implies(And(0 <= k, k < F.N, F.kind(k) == 2), And(*[And(1 <= F.int(k, j), F.int(k, j) <= RV(k)) for j in (1, 2, 3)])))
        for R in (RV, RF):
            for a, b in ((I(0), i), (I(0), T), (i, T), (T + 1, i), (i, F.N)):
                ex.assume(Implies(And(0 <= a, a <= b), And(R(a) <= R(b), R(b) - R(a) <= b - a)))
    a, d = c.fresh_int('a', 0), c.fresh_int('d', 0)
    with c.under(RV(a + d + 1) == RV(a + d) + B(F.kind(a + d) == 1), RV(a) <= RV(a + d), RV(a + d) - RV(a) <= d):
        c.ensure('counts grow with the lines, by one at most (induction step)', And(RV(a) <= RV(a + d + 1), RV(a + d + 1) - RV(a) <= d + 1))
    facts(I(0))
    vert = lambda: m.vert(RV(T)).eq(V(*[F.real(T, I(j)) for j in (1, 2, 3)]))
    tri = lambda: And(*[x == F.int(T, I(j + 1)) - 1 for j, x in enumerate(m.tri(RF(T)))] + [Not(m.dead(RF(T)))])

    def inv(L):
        p = ex.rd(F.pos)
        facts(p)
        return [('range', And(0 <= p, p <= F.N)), ('one vertex for each vertex line', m.nv() == RV(p)), ('one triangle for each face line', m.nt() == RF(p)),
                ('vertices so far', Implies(And(T < p, F.kind(T) == 1), vert())), ('triangles so far', Implies(And(T < p, F.kind(T) == 2), tri()))]
    c.loop_inv('OBJFile::load', 0, inv)
    r = c.call('OBJFile::load', None, [Str(('in',)), m.lv])
    with c.under(F.opened):
        c.ensure('one vertex for each vertex line, one triangle for each face line', And(m.nv() == RV(F.N), m.nt() == RF(F.N)))
        with c.under(F.kind(T) == 1):
            c.ensure('vertices in the order of their lines', vert())
        with c.under(F.kind(T) == 2):
            c.ensure('triangles in the order of their lines, live, with the vertices referred to', tri())
    c.ensure('success is reported when the file could be opened', boolv(r) == F.opened)
