from .streams import *
from .C21 import B
P = 'C24'
ST = MESH + ['STLFile.cpp']


def ranks(c, m, nt):
    """R(i): number of live triangles before i"""
    R = z3.Function(fresh_name('rank'), z3.IntSort(), z3.IntSort())
    c.assume(R(0) == 0)
    step = lambda i: R(i + 1) == R(i) + B(Not(m.dead(i)))
    # monotone, by induction on the distance: proved once for arbitrary a and d, then used at the places needed
    a, d = c.fresh_int('a', 0), c.fresh_int('d', 0)
    with c.under(step(a + d), R(a) <= R(a + d)):
        c.ensure('the rank of a triangle grows with its number (induction step)', R(a) <= R(a + d + 1))
    mono = lambda i, j: Implies(i <= j, R(i) <= R(j))
    return R, step, mono


@contract(P, 'saving', ST)
def _(c):
    m = Mesh_(c, 'm')
    nt = m.nt()
    c.assume(nt < 2 ** 24)
    T = c.fresh_int('T', 0, nt)
    R, step, mono = ranks(c, m, nt)
    k, w = c.fresh_int('corner', 0, 3), c.fresh_int('coordinate', 0, 3)
    rec = 84 + 50 * R(T)
    F = Words(c, [(I(80), 4), (rec + 12 + 12 * k + 4 * w, 4), (rec + 4 * w, 4), (rec + 48, 2)])
    ex = c.ex
    live = Not(m.dead(T))
    pick = lambda i, l: If(i == 0, l[0], If(i == 1, l[1], l[2]))
    co = [m.vert(x) for x in m.tri(T)]
    want = F32(pick(w, [pick(k, [getattr(p, x) for p in co]) for x in 'xyz']))
    c.assume(mono(I(0), T))
    pos = lambda: ex.rd(F.pos)
    kd = lambda i: ex.rd(F.kind[i])
    N = 'STLFile::save'
    facts = lambda i: [Implies(And(0 <= i, i < nt), step(i)), Implies(And(0 <= T, T < nt), step(T)), mono(i, T), mono(T + 1, i), mono(I(0), i)]
    old = Snap(c)

    def inv(L, fs):
        # the ranks are defined by recursion: their equations at this place are facts of the definition
        for f in facts(L['i']):
            ex.assume(f)
        return fs
    c.loop_inv(N, 1, lambda L: inv(L, [('range', And(0 <= L['i'], L['i'] <= nt)), ('live so far', L['iNbValidTriangles'] == R(L['i']))]))
    c.loop_inv(N, 2, lambda L: inv(L, [('range', And(0 <= L['i'], L['i'] <= nt)), ('records so far', pos() == 84 + 50 * R(L['i'])),
                                          ('count kept', And(kd(0) == 2, ex.rd(F.val[0]) == realv(R(nt)))),
                                          ('records before', Implies(And(live, T < L['i']), And(kd(1) == 1, ex.rd(F.val[1]) == want, kd(2) == 1, ex.rd(F.val[2]) == 0, kd(3) == 2))),
                                          ('not yet', Implies(And(live, T >= L['i']), And(*[kd(i) == 0 for i in (1, 2, 3)])))]))
    r = c.call(N, None, [Str(('out',)), m.lv])
    with c.under(F.opened):
        c.ensure('the count in the file', And(kd(0) == 2, ex.rd(F.val[0]) == realv(R(nt))))
        c.ensure('is the number of records that follow, and nothing else follows', pos() == 84 + 50 * R(nt))
        with c.under(live):
            c.ensure('each live triangle has its record, in order, corners rounded to single precision', And(kd(1) == 1, ex.rd(F.val[1]) == want))
            c.ensure('complete', c.of(T, And(kd(2) == 1, kd(3) == 2)))
    c.ensure('success is reported when the file could be opened', boolv(r) == F.opened)
    mesh_frame(c, m, old, nv=0, nt=0)


@contract(P, 'loading any file', ST)
def _(c):
    m = Mesh_(c, 'm')
    F = Words(c)
    ex = c.ex
    cnt = F.i32(I(80))
    c.assume(And(F.n < 2 ** 31, cnt < 2 ** 28, cnt >= -2 ** 31))
    full = If(F.n >= 84, (F.n - 84) / 50, I(0))         # whole records in the file
    T = c.fresh_int('T', 0)
    at = lambda k, w: F.f32(84 + 50 * T + 12 + 12 * k + 4 * w)
    N = 'STLFile::load'
    nv, nt = m.nv, m.nt

    def stored(d):
        t = m.tri(T)
        vs = [m.vert(3 * T + k) for k in range(3)]
        return Implies(d, And(*[a == 3 * T + k for k, a in enumerate(t)] + [v.eq(V(*[at(k, w) for w in range(3)])) for k, v in enumerate(vs)] + [Not(m.dead(T))]))
    c.loop_inv(N, 1, lambda L: [('range', And(0 <= L['i'], Or(L['i'] <= L['nbFacet'], L['i'] == 0))), ('as many triangles as records read', And(nt() == L['i'], nv() == 3 * L['i'])),
                                ('position', Implies(ex.rd(F.ok), And(ex.rd(F.pos) == 84 + 50 * L['i'], ex.rd(F.pos) <= F.n, L['nbFacet'] == cnt))), ('all read', And(ex.rd(F.ok) == (F.n >= 84), Implies(F.n < 84, L['i'] == 0))), ('triangles read', stored(And(T < L['i'])))])
    r = c.call(N, None, [Str(('in',)), m.lv])
    with c.under(F.opened):
        n = If(cnt < 0, I(0), If(cnt < full, cnt, full))
        with c.under(F.n >= 84):
            c.ensure('as many triangles as announced and present', nt() == n)
        with c.under(F.n < 84):
            c.ensure('no record, no triangle', nt() == 0)
        c.ensure('three vertices for each', nv() == 3 * nt())
        with c.under(T < nt()):
            c.ensure('triangle T has the corners of record T, in order, and is live', stored(z3.BoolVal(True)))
        with c.under(F.n >= 84, cnt <= full):
            c.ensure('a complete file is reported as read', boolv(r))
    with c.under(Not(F.opened)):
        c.ensure('failure to open is reported', Not(boolv(r)))
