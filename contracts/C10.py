from .common import *
P = 'C10'
SRC = MESH + ['MeshUtil.cpp']


def n2(a, b):
    return (a - b).n2()


@contract(P, 'remove empty triangles', SRC)
def _(c):
    m = Mesh_(c, 'm')
    tol = c.real('tol')
    old = Snap(c)
    c.call('MeshUtil::remove_empty_triangles', None, [m.lv, tol])
    with old:
        nt0 = m.nt()
    c.ensure('vertex count', m.nv() == c_old(c, old, m.nv))
    c.ensure('triangle count', m.nt() == nt0)
    c.ensure('colour kept', m.color() == c_old(c, old, m.color))
    i = c.fresh_int('i', 0, m.nv())
    c.ensure('no vertex changes', m.vert(i).eq(c_old(c, old, lambda: m.vert(i))))
    j = c.fresh_int('j', 0, nt0)
    with old:
        t, d = m.tri(j), m.dead(j)
        a, b, e = [m.vert(v) for v in t]
    c.ensure('no triangle changes its vertices', And(*[x == y for x, y in zip(m.tri(j), t)]))
    short = Or(n2(a, b) < tol * tol, n2(b, e) < tol * tol, n2(e, a) < tol * tol)
    c.ensure('a triangle is removed if and only if it was already or has an edge shorter than the tolerance', m.dead(j) == Or(d, short))


def c_old(c, old, f):
    with old:
        return f()


# ------------------------------------------------------------------ merging
DSQ = z3.Function('distance_square', *([z3.RealSort()] * 7))


def dsq(a, b):
    return DSQ(*(list(a) + list(b)))


def use_distance_contract(c):
    """callee contract: Point3::distance_square is a function of the two positions (what it computes: C01)"""
    def h(ex, this, args, fn):
        return dsq(V.of(ex.rd(this)), V.of(ex.rd(args[0])))
    c.ex.handlers[c.fn('Point3::distance_square').mangled] = h


def use_copy_contract(c, copied):
    """callee contract: a copied mesh has the vertices of the source at the same places and a sequence of live triangles over them (which ones: C09)"""
    def h(ex, ctor, argnodes):
        if len(argnodes) != 1:
            return None
        src = ex.ev_any(argnodes[0])
        k = (ex.rd(src) if isinstance(src, LV) else src).f['_pKernel']
        verts = ex.rd(ptr_target(c, k)).f['_vVertices']
        m = Mesh_(c, 'copy')
        kk = ptr_target(c, c.val(m.lv).f['_pKernel'])
        s = c.val(kk)
        f = dict(s.f)
        f['_vVertices'] = verts
        c.ex.wr(kk, Struct(s.cls, f))
        nt = f['_vTriangles'].len()
        ok = lambda a: And(a[0] >= 0, a[0] < nt)
        for n in ('_vertex1', '_vertex2', '_vertex3'):
            RANGES['copy.t.' + n] = (0, verts.len() - 1, ok)
        RANGES['copy.t._unlinked'] = (0, 0)
        copied.append(m)
        return ex.rd(m.lv)
    c.handler('ctor:Mesh', h)


def q(n=1):
    return [z3.Int(fresh_name('q')) for _ in range(n)]


@contract(P, 'merge vertices', SRC)
def _(c):
    m = Mesh_(c, 'm')
    RANGES['m.t._unlinked'] = (0, 0)
    tol = c.real('tol')
    c.assume(tol >= 0)
    t2 = z3.Real('tol_sq')
    use_distance_contract(c)
    with quiet(c):
        n = m.nv()
    old = Snap(c)

    def vert(i):
        with old:
            return m.vert(i)

    def al(L, i, old=False):
        v = L.old('verticesAlias') if old else L['verticesAlias']
        return v.get(i, c.ex)

    def alias_ok(L, hi, upto):
        a, b = q(2)
        x = al(L, a)
        T = tol * tol
        return [
            ('length', L['verticesAlias'].len() == n),
            ('aliases name an earlier kept vertex closer than the tolerance', ForAll([a], Implies(And(0 <= a, a < hi, x != -1), And(0 <= x, x < a, al(L, x) == -1, dsq(vert(a), vert(x)) < T)))),
            ('kept vertices are pairwise apart', ForAll([a, b], Implies(And(0 <= a, a < b, b < hi, x == -1, al(L, b) == -1), dsq(vert(b), vert(a)) >= T))),
        ]

    def inv0(L):
        i = L['i']
        a = q()[0]
        return [('range', And(0 <= i, i <= n))] + alias_ok(L, i, i) + [
            ('later entries not yet set', ForAll([a], Implies(And(i <= a, a < n), al(L, a) == -1)))]

    def inv1(L):
        i, j = L['i'], L['j']
        a = q()[0]
        T = tol * tol
        x = al(L, i)
        return [('range', And(0 <= i, i < n, 0 <= j, j <= i)), ('length', L['verticesAlias'].len() == n),
                ('nothing else changes', ForAll([a], Implies(And(0 <= a, a < n, a != i), al(L, a) == al(L, a, True)))),
                ('the alias found so far', Or(x == -1, And(0 <= x, x < j, al(L, x) == -1, dsq(vert(i), vert(x)) < T))),
                ('no nearer kept vertex was passed over', Implies(x == -1, ForAll([a], Implies(And(0 <= a, a < j, al(L, a) == -1), dsq(vert(i), vert(a)) >= T))))]
    c.loop_inv('MeshUtil::merge_vertices', 0, inv0)
    c.loop_inv('MeshUtil::merge_vertices', 1, inv1)
    copied = []
    use_copy_contract(c, copied)

    seen = {}

    def inv2(L):
        seen['alias'] = L.old('verticesAlias')
        i = L['i']
        a, b = q(2)
        A = seen['alias'].get(a, c.ex)
        Bb = seen['alias'].get(b, c.ex)
        x, y = al(L, a), al(L, b)
        nm = m.nv()
        rep = If(A == -1, a, A)
        r = [('range', And(0 <= i, i <= n)), ('length', L['verticesAlias'].len() == n), ('count', And(0 <= nm, nm <= i)),
                ('later entries as found', ForAll([a], Implies(And(i <= a, a < n), x == A))),
                ('new numbers', ForAll([a], Implies(And(0 <= a, a < i), And(0 <= x, x < nm)))),
                ('a merged vertex has the number of the vertex it is merged into', ForAll([a], Implies(And(0 <= a, a < i, A != -1), x == al(L, A)))),
                ('a kept vertex keeps its place', ForAll([a], Implies(And(0 <= a, a < i, A == -1), And(m.vert(x).eq(vert(a)))))),
                ('kept vertices have different numbers, in order', ForAll([a, b], Implies(And(0 <= a, a < b, b < i, A == -1, Bb == -1), x < y))),
                ('every new vertex is a kept one', ForAll([b], Implies(And(0 <= b, b < nm), z3.Exists([a], And(0 <= a, a < i, A == -1, x == b))))),
                ]
        seen.setdefault('new', []).append(L['verticesAlias'])
        return r
    c.loop_inv('MeshUtil::merge_vertices', 2, inv2)
    c.call('MeshUtil::merge_vertices', None, [m.lv, tol])
    A, X = seen['alias'], seen['new'][1]
    nt = copied[0].nt()
    c.ensure('one triangle for each live one', m.nt() == nt)
    close = lambda p, q: Or(p.eq(q), dsq(p, q) < tol * tol)
    j = c.fresh_int('j', 0, nt)
    now, was = m.tri(j), copied[0].tri(j)
    c.ensure('triangles are live', Not(m.dead(j)))
    for k in range(3):
        with c.under(0 <= was[k], was[k] < n):
            c.lemma('corner %d refers to a vertex of the result' % k, And(0 <= now[k], now[k] < m.nv()))
            c.ensure('corner %d is moved by less than the tolerance' % k, close(vert(was[k]), m.vert(now[k])))
    c.ensure('never more vertices', m.nv() <= n)
    i = c.fresh_int('i', 0, n)
    with c.under():
        p = X.get(i, c.ex)
        c.lemma('representative: exists', And(0 <= p, p < m.nv()))
        c.ensure('every original vertex is represented within the tolerance', close(vert(i), m.vert(p)))
    a, b = c.fresh_int('a'), c.fresh_int('b')
    with c.under(0 <= a, a < b, b < m.nv()):
        w = []
        for x in (a, b):
            z = q()[0]
            body = lambda z: And(0 <= z, z < n, A.get(z, c.ex) == -1, X.get(z, c.ex) == x)
            for _, t in list(c.ex.st.pc):       # instances of what the loop has kept
                if z3.is_quantifier(t) and t.is_forall() and t.num_vars() == 1 and z3.is_app(t.body()) and z3.is_quantifier(t.body().children()[-1]):
                    c.assume(z3.substitute_vars(t.body(), x))
            c.ensure('each vertex of the result is a kept one', z3.Exists([z], body(z)))
            z1 = c.fresh_int('kept')
            c.assume(body(z1))          # existential elimination of the obligation above
            c.lemma('and is where it was', m.vert(x).eq(vert(z1)))
            w.append(z1)
        lo, hi = If(w[0] < w[1], w[0], w[1]), If(w[0] < w[1], w[1], w[0])
        c.lemma('different vertices of the result come from different ones', w[0] != w[1])
        c.lemma('kept vertices were at least the tolerance apart', dsq(vert(hi), vert(lo)) >= tol * tol)
        c.ensure('kept vertices are pairwise at least the tolerance apart', Or(dsq(m.vert(a), m.vert(b)) >= tol * tol, dsq(m.vert(b), m.vert(a)) >= tol * tol))
