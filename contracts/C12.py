from .common import *
P = 'C12'
SRC = MESH + ['MeshUtil.cpp', 'MeshTessellate.cpp', 'MeshFactory.cpp', 'Image.cpp', 'ImageUtil.cpp']


def concrete(c, m):
    """all triangles of a mesh of known size"""
    nt, nv = [as_int(z3.simplify(x)) for x in (m.nt(), m.nv())]
    if nt is None or nv is None:
        raise Unsupported('mesh of unknown size')
    ts = []
    for i in range(nt):
        t = [as_int(z3.simplify(x)) for x in m.tri(i)]
        if None in t:
            raise Unsupported('triangle with unknown vertices')
        ts.append(t)
        c.ensure('triangle %d is live' % i, Not(m.dead(i)))
    return nv, ts


def solid(c, m, nv, faces):
    n, ts = concrete(c, m)
    c.ensure('vertex count', z3.BoolVal(n == nv))
    c.ensure('triangle count', z3.BoolVal(len(ts) == faces))
    edges = [(t[k], t[(k + 1) % 3]) for t in ts for k in range(3)]
    c.ensure('every oriented edge once', z3.BoolVal(len(set(edges)) == len(edges)))
    c.ensure('every edge has its opposite', z3.BoolVal(all((b, a) in set(edges) for a, b in edges)))
    c.ensure('every vertex used', z3.BoolVal({v for t in ts for v in t} == set(range(n))))
    c.ensure('three different vertices per triangle', z3.BoolVal(all(len(set(t)) == 3 for t in ts)))
    vs = [m.vert(i) for i in range(n)]
    for i, t in enumerate(ts):
        p, q, r = [vs[k] for k in t]
        c.ensure('triangle %d faces outward' % i, det(p, q, r) > 0)
    return vs, ts


def full(c):
    m = Mesh_(c, 'm')
    d = c.real('size')
    c.assume(d > 0)
    return m, d


@contract(P, 'tetrahedron', SRC)
def _(c):
    m, d = full(c)
    c.call('MeshFactory::create_tetrahedron', None, [d, m.lv])
    vs, ts = solid(c, m, 4, 4)
    for i, p in enumerate(vs):
        c.ensure('vertex %d is a corner of the cube' % i, And(*[Or(x == d, x == -d) for x in p]))
    for i in range(4):
        for j in range(i):
            c.ensure('equal sides', (vs[i] - vs[j]).n2() == 8 * d * d)


@contract(P, 'box', SRC)
def _(c):
    m = Mesh_(c, 'm')
    s = [c.real(x) for x in ('sx', 'sy', 'sz')]
    for x in s:
        c.assume(x > 0)
    c.call('MeshFactory::create_box', None, s + [m.lv])
    vs, ts = solid(c, m, 8, 12)
    for i, p in enumerate(vs):
        c.ensure('vertex %d is a corner' % i, And(*[Or(2 * x == y, 2 * x == -y) for x, y in zip(p, s)]))
        for q in vs[:i]:
            c.ensure('different corners', Not(p.eq(q)))


@contract(P, 'octahedron', SRC)
def _(c):
    m, d = full(c)
    c.call('MeshFactory::create_octahedron', None, [d, m.lv])
    vs, ts = solid(c, m, 6, 8)
    for t in ts:
        for k in range(3):
            c.ensure('equal sides', (vs[t[k]] - vs[t[(k + 1) % 3]]).n2() == 2 * d * d)
    for p in vs:
        c.ensure('distance to the centre', p.n2() == d * d)


@contract(P, 'icosahedron', SRC)
def _(c):
    m, d = full(c)
    c.call('MeshFactory::create_icosahedron', None, [d, m.lv])
    vs, ts = solid(c, m, 12, 20)
    t = (SQRT(z3.RealVal(5)) - 1) / 2 * d
    for tr in ts:
        for k in range(3):
            c.ensure('equal sides', (vs[tr[k]] - vs[tr[(k + 1) % 3]]).n2() == 4 * t * t)
    for p in vs:
        c.ensure('distance to the centre', p.n2() == d * d + t * t)


@contract(P, 'dodecahedron', SRC)
def _(c):
    m, d = full(c)
    c.call('MeshFactory::create_dodecahedron', None, [d, m.lv])
    vs, ts = solid(c, m, 20, 36)
    for p in vs:
        c.ensure('distance to the centre', p.n2() == 3 * d * d)
    side = 2 / ((SQRT(z3.RealVal(5)) + 1) / 2) * d
    # faces: triangles in one plane through a common diagonal; a side is an edge between two faces
    e = {(t[k], t[(k + 1) % 3]): i for i, t in enumerate(ts) for k in range(3)}
    n = 0
    short = []
    for (a, b) in e:
        if a < b:
            short.append((a, b))
    # each vertex has exactly three sides
    deg = {i: 0 for i in range(20)}
    for a, b in short:
        face = And(*[det(vs[b] - vs[a], vs[x] - vs[a], vs[y] - vs[a]) == 0 for x in ts[e[(a, b)]] for y in ts[e[(b, a)]]])
        c.ensure('edge (%d,%d) is a side of a pentagon or lies inside a flat face' % (a, b), Or((vs[a] - vs[b]).n2() == side * side, face))


# ------------------------------------------------------------------ solids of any resolution
def edges(t):
    return [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]


def sv(a, b):
    """same vertex (number, or tuple of grid coordinates that numbers it injectively)"""
    return And(*[x == y for x, y in zip(a, b)]) if isinstance(a, tuple) else a == b


def same_edge(e, f):
    return And(sv(e[0], f[0]), sv(e[1], f[1]))


def closed_surface(c, pieces, params, around):
    """pieces(params) -> triangles (corner numbers); params(c) -> arbitrary parameters; around(params) -> parameters of the
    neighbouring pieces, each with the condition under which it exists.  Every oriented edge is met by an opposite one of the piece or a neighbour; no edge occurs twice."""
    st = c.ex.st
    c.ex.st = st.copy()
    x = params(c)
    near = [(g, t) for y, g in [(x, z3.BoolVal(True))] + around(x) for t in pieces(y)]
    for k, t in enumerate(pieces(x)):
        for j, e in enumerate(edges(t)):
            c.ensure('edge %d of triangle %d has an opposite' % (j, k), Or(*[And(g, same_edge(e, (f[1], f[0]))) for g, u in near for f in edges(u)]))
        c.ensure('triangle %d has three different vertices' % k, And(Not(sv(t[0], t[1])), Not(sv(t[1], t[2])), Not(sv(t[2], t[0]))))
    c.ex.st = st.copy()
    x, y = params(c), params(c)
    same = And(*[p == q for p, q in zip(x, y)])
    A, B = pieces(x), pieces(y)
    for k, t in enumerate(A):
        for l, u in enumerate(B):
            for j, e in enumerate(edges(t)):
                for jj, f in enumerate(edges(u)):
                    if k == l and j == jj:
                        c.ensure('edge %d of triangle %d occurs once' % (j, k), Implies(same_edge(e, f), same))
                    elif (k, j) < (l, jj):
                        c.ensure('edges %d of triangle %d and %d of triangle %d differ' % (j, k, jj, l), Not(same_edge(e, f)))
    c.ex.st = st


PI_ = z3.RealVal('3.14159265358979323846264338')      # smaller than pi; the constant of the code is the nearest double, smaller too


def turn(c, a, b, what='sin(b-a)'):
    """trigonometry: sin(b-a) = sin b cos a - cos b sin a, with its sign for a <= b within one turn.  Taken as known."""
    d = realv(b) - realv(a)
    c.assume(SIN(d) == SIN(b) * COS(a) - COS(b) * SIN(a))
    c.assume(Implies(And(d > 0, d <= PI_), SIN(d) > 0))
    c.assume(Implies(And(d >= z3.RealVal('3.1416'), d < 2 * PI_), SIN(d) < 0))
    c.ex.assumptions.add('sine: angle difference formula, positive on (0,pi), negative on (pi,2pi)')
    return SIN(d)


def angles(t, F=SIN):
    """arguments of the sines (or cosines) in a term"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(F):
            out.append(x.arg(0))
        st.extend(x.children())
    return out


def angle(v):
    a = angles(v)
    if len(a) != 1:
        raise Unsupported('coordinate is not a multiple of one sine')
    return a[0]


@contract(P, 'cylinder, any resolution', SRC)
def _(c):
    m = Mesh_(c, 'm')
    h, R, n = c.real('height'), c.real('radius'), c.int('n', 1)
    c.assume(And(h > 0, R > 0, n < 2 ** 20))
    c.call('MeshFactory::create_cylinder', None, [h, R, n, m.lv])
    N = 2 + 4 * n
    c.ensure('vertex count', m.nv() == 2 * N + 2)
    c.ensure('triangle count', m.nt() == 4 * N)
    st = c.ex.st

    def tri(k, i):
        return m.tri([2 * i, 2 * i + 1, 2 * N + i, 3 * N + i][k])
    succ = lambda i: If(i == N - 1, I(0), i + 1)
    pred = lambda i: If(i == 0, N - 1, i - 1)
    i = c.fresh_int('i', 0, N)
    s = succ(i)
    want = [(2 * i, 2 * i + 1, 2 * s + 1), (2 * s + 1, 2 * s, 2 * i), (2 * N, 2 * i, 2 * s), (2 * N + 1, 2 * s + 1, 2 * i + 1)]
    for k in range(4):
        c.ensure('triangle %d of segment i is live' % k, Not(m.dead([2 * i, 2 * i + 1, 2 * N + i, 3 * N + i][k])))
        c.lemma('triangle %d of segment i' % k, And(*[x == y for x, y in zip(tri(k, i), want[k])]))
    pieces = lambda x: [(2 * x[0], 2 * x[0] + 1, 2 * succ(x[0]) + 1), (2 * succ(x[0]) + 1, 2 * succ(x[0]), 2 * x[0]), (2 * N, 2 * x[0], 2 * succ(x[0])), (2 * N + 1, 2 * succ(x[0]) + 1, 2 * x[0] + 1)]
    closed_surface(c, pieces, lambda c: (c.fresh_int('i', 0, N),), lambda x: [((succ(x[0]),), z3.BoolVal(True)), ((pred(x[0]),), z3.BoolVal(True))])
    # geometry
    c.ex.st = st.copy()
    i = c.fresh_int('i', 0, N)
    up, lo = m.vert(2 * i), m.vert(2 * i + 1)
    c.ensure('upper rim', And(up.x * up.x + up.y * up.y == R * R, 2 * up.z == h))
    c.ensure('lower rim', And(lo.x * lo.x + lo.y * lo.y == R * R, 2 * lo.z == -h))
    a, b = m.vert(2 * N), m.vert(2 * N + 1)
    c.ensure('cap centres', And(a.eq(V(0, 0, h / 2)), b.eq(V(0, 0, -h / 2))))
    st = c.ex.st
    for label, cond, s in (('inner segment', i < N - 1, i + 1), ('last segment', i == N - 1, I(0))):
        c.ex.st = st.copy()
        c.assume(cond)
        P, Q = m.vert(2 * i), m.vert(2 * s)
        p, q = angle(P.y), angle(Q.y)
        d = q - p
        if label == 'inner segment':
            c.lemma('step', And(d > 0, d <= PI_, d * realv(N) <= 2 * PI_))
        else:
            c.lemma('step', And(-d >= z3.RealVal('3.1416'), -d < 2 * PI_))
            p, q = q, p
        S = turn(c, p, q)
        sg = 1 if label == 'inner segment' else -1
        c.lemma('area seen from the axis', P.x * Q.y - P.y * Q.x == R * R * S * sg)
        c.lemma('positive', R * R * S * sg > 0)
        for k, t in enumerate(pieces((i,))):
            x, y, z = [m.vert(v) for v in m.tri([2 * i, 2 * i + 1, 2 * N + i, 3 * N + i][k])]
            c.ensure('%s: triangle %d faces outward' % (label, k), det(x, y, z) > 0)


@contract(P, 'sphere by longitude and latitude, any resolution', SRC)
def _(c):
    m = Mesh_(c, 'm')
    R, n = c.real('radius'), c.int('n', 1)
    c.assume(And(R > 0, n < 2 ** 12))
    c.call('MeshFactory::create_sphere_uv', None, [R, n, m.lv])
    L, W = 2 + 4 * n, 1 + 2 * n
    c.ensure('vertex count', m.nv() == L * W + 2)
    c.ensure('triangle count', m.nt() == 2 * L * W)
    st = c.ex.st
    succ = lambda i: If(i == L - 1, I(0), i + 1)
    pred = lambda i: If(i == 0, L - 1, i - 1)
    NORTH, SOUTH = (I(-1), I(0)), (I(-1), I(1))
    def number(v):
        return L * W + v[1] if v[0] is NORTH[0] or v[0] is SOUTH[0] else v[0] * W + v[1]

    def vite(cond, a, b):
        return tuple(If(cond, x, y) for x, y in zip(a, b))

    def pieces(x):
        i, k = x
        j = succ(i)
        t0 = [vite(k == 0, a, b) for a, b in zip((NORTH, (i, k), (j, k)), ((j, k), (j, k - 1), (i, k - 1)))]
        t1 = [vite(k == W - 1, a, b) for a, b in zip(((i, k), SOUTH, (j, k)), ((i, k), (i, k + 1), (j, k + 1)))]
        return [t0, t1]
    par = lambda c: (c.fresh_int('i', 0, L), c.fresh_int('k', 0, W))
    closed_surface(c, pieces, par, lambda x: [((f(x[0]), x[1] + d), And(x[1] + d >= 0, x[1] + d < W)) for f in (succ, pred, lambda i: i) for d in (-2, -1, 0, 1, 2)])
    i, k = par(c)
    num = lambda v: If(v[0] == -1, L * W + v[1], v[0] * W + v[1])
    c.lemma('base', And(i * W + k >= 0, i * W + k < L * W))
    for e in range(2):
        t = 2 * (i * W + k) + e
        c.ensure('triangle %d is live' % e, Not(m.dead(t)))
        for label, cond in (('first row', k == 0), ('last row', k == W - 1), ('between', And(k > 0, k < W - 1))):
            for lab2, cond2 in (('', i < L - 1), (', seam', i == L - 1)):
                with c.under(cond, cond2):
                    ii = L - 1 if lab2 else i
                    c.ensure('triangle %d: %s%s' % (e, label, lab2), And(*[a == num(b) for a, b in zip(m.tri(2 * (ii * W + k) + e), pieces((ii, k))[e])]))
    # numbering is injective
    i2, k2 = par(c)
    c.lemma('numbering of the grid is injective', Implies(i * W + k == i2 * W + k2, And(i == i2, k == k2)))
    c.ensure('poles are different', And(i * W + k != L * W, i * W + k != L * W + 1))
    p = m.vert(i * W + k)
    c.ensure('vertices lie on the sphere', p.n2() == R * R)
    c.ensure('north pole', m.vert(L * W).eq(V(0, 0, R)))
    c.ensure('south pole', m.vert(L * W + 1).eq(V(0, 0, -R)))
    # where the vertices are, in closed form
    CPI = z3.RealVal('884279719003555/281474976710656')       # the double nearest to pi
    U_ = lambda i: realv(i) / realv(L) * 2 * CPI
    V_ = lambda k: realv(k + 1) / realv(W + 1) * CPI

    def S(i, k):
        return V(R * SIN(V_(k)) * COS(U_(i)), R * SIN(V_(k)) * SIN(U_(i)), R * COS(V_(k)))
    c.ensure('vertex (i,k) is at longitude 2 pi i/L and colatitude pi (k+1)/(W+1)', m.vert(i * W + k).eq(S(i, k)))

    def place(v):
        if v[0] is NORTH[0]:
            return V(0, 0, R)
        return V(0, 0, -R) if v[0] is SOUTH[0] else S(*v)
    # outward: seen from the centre every triangle turns the same way
    st = c.ex.st
    for lab2, cond2, ii, jj in (('', i < L - 1, i, i + 1), (', seam', z3.BoolVal(True), L - 1, I(0))):
        rows = (('first row', k == 0, (k, k), (NORTH, (ii, k), (jj, k))), ('rows, first half', k > 0, (k - 1, k), ((jj, k), (jj, k - 1), (ii, k - 1))),
                ('rows, second half', k < W - 1, (k, k + 1), ((ii, k), (ii, k + 1), (jj, k + 1))), ('last row', k == W - 1, (k, k), ((ii, k), SOUTH, (jj, k))))
        for label, cond, kk, tr in rows:
            c.ex.st = st.copy()
            c.assume(And(cond, cond2))
            u1, u2, v1, v2 = U_(ii), U_(jj), V_(kk[0]), V_(kk[1])
            if lab2:
                c.lemma('turn', And(u1 - u2 >= z3.RealVal('3.1416'), u1 - u2 < 2 * PI_))
                U = -turn(c, u2, u1)
            else:
                c.lemma('turn', And(u2 - u1 > 0, u2 - u1 <= PI_))
                U = turn(c, u1, u2)
            c.lemma('rows between the poles', And(v1 > 0, v1 < PI_, v2 > 0, v2 < PI_))
            c.assume(And(SIN(v1) > 0, SIN(v2) > 0))        # sine positive on (0, pi)
            d = det(*[place(p) for p in tr])
            if kk[0] is kk[1]:
                f = SIN(v1) * SIN(v1)
            else:
                c.lemma('step', And(v2 - v1 > 0, v2 - v1 <= PI_))
                f = turn(c, v1, v2) * (SIN(v1) if label == 'rows, first half' else SIN(v2))
            c.lemma('determinant, %s%s' % (label, lab2), d == R * R * R * f * U)
            c.lemma('signs', And(f > 0, R * R * R > 0))
            c.ensure('%s%s: faces outward' % (label, lab2), d > 0)


@contract(P, 'torus, any resolution', SRC)
def _(c):
    m = Mesh_(c, 'm')
    M, q, n = c.real('major'), c.real('minor'), c.int('n', 1)
    c.assume(And(q > 0, M > q, n < 2 ** 12))
    c.call('MeshFactory::create_torus', None, [M, q, n, m.lv])
    L, W = 2 + 4 * n, 6 + 2 * n
    c.ensure('vertex count', m.nv() == L * W)
    c.ensure('triangle count', m.nt() == 2 * L * W)
    st = c.ex.st
    succ = lambda i: If(i == L - 1, I(0), i + 1)
    pred = lambda i: If(i == 0, L - 1, i - 1)
    up = lambda k: If(k == W - 1, I(0), k + 1)
    down = lambda k: If(k == 0, W - 1, k - 1)

    def pieces(x, j=None, l=None):
        i, k = x
        j, l = succ(i) if j is None else j, up(k) if l is None else l
        return [((j, k), (j, l), (i, l)), ((i, l), (i, k), (j, k))]
    par = lambda c: (c.fresh_int('i', 0, L), c.fresh_int('k', 0, W))
    same = lambda x: x
    closed_surface(c, pieces, par, lambda x: [((f(x[0]), g(x[1])), z3.BoolVal(True)) for f in (succ, pred, same) for g in (up, down, same)])
    i, k = par(c)
    c.lemma('base', And(i * W + k >= 0, i * W + k < L * W))
    seams = [(a + b, ci, ck, ii, jj, kk, ll) for a, ci, ii, jj in (('', i < L - 1, i, i + 1), (', long seam', z3.BoolVal(True), L - 1, I(0)))
             for b, ck, kk, ll in (('', k < W - 1, k, k + 1), (', short seam', z3.BoolVal(True), W - 1, I(0)))]
    for lab, ci, ck, ii, jj, kk, ll in seams:
        for e in range(2):
            with c.under(ci, ck):
                t = 2 * (ii * W + kk) + e
                c.lemma('row', And(ii * W + kk >= 0, ii * W + kk < L * W, ii * W + kk == (ii + 1) * W - W + kk))
                if 'long' in lab and 'short' in lab:
                    c.lemma('corner', And(t == 2 * (L * W) - 2 + e, ii * W + kk == L * W - 1, jj * W + ll == 0, ii * W + ll == L * W - W, jj * W + kk == W - 1))
                c.ensure('triangle %d%s' % (e, lab), And(Not(m.dead(t)), *[a == b[0] * W + b[1] for a, b in zip(m.tri(t), pieces((ii, kk), jj, ll)[e])]))
    i2, k2 = par(c)
    c.lemma('numbering of the grid is injective', Implies(i * W + k == i2 * W + k2, And(i == i2, k == k2)))
    CPI = z3.RealVal('884279719003555/281474976710656')       # the double nearest to pi
    U_ = lambda i: realv(i) / realv(L) * 2 * CPI
    V_ = lambda k: realv(k) / realv(W) * 2 * CPI
    rho = lambda k: M + q * COS(V_(k))

    def S(i, k):
        return V(rho(k) * COS(U_(i)), rho(k) * SIN(U_(i)), q * SIN(V_(k)))
    c.ensure('vertex (i,k) is at angles 2 pi i/L and 2 pi k/W', m.vert(i * W + k).eq(S(i, k)))
    w = S(i, k) - V(M * COS(U_(i)), M * SIN(U_(i)), 0)
    c.ensure('vertices are at the minor radius from the ring', w.n2() == q * q)
    st = c.ex.st
    for lab, ci, ck, ii, jj, kk, ll in seams:
        for e in range(2):
            c.ex.st = st.copy()
            c.assume(And(ci, ck))
            turns = []
            for x1, x2, seam in ((U_(ii), U_(jj), 'long' in lab), (V_(kk), V_(ll), 'short' in lab)):
                if seam:
                    c.lemma('turn', And(x1 - x2 >= z3.RealVal('3.1416'), x1 - x2 < 2 * PI_))
                    turns.append(-turn(c, x2, x1))
                else:
                    c.lemma('turn', And(x2 - x1 > 0, x2 - x1 <= PI_))
                    turns.append(turn(c, x1, x2))
            C = V(M * COS(U_(ii)), M * SIN(U_(ii)), 0)
            C2 = V(M * COS(U_(jj)), M * SIN(U_(jj)), 0)
            tr = [S(*p) - (C2 if e else C) for p in pieces((ii, kk), jj, ll)[e]]
            r = rho(kk) if e else rho(ll)
            c.lemma('determinant %d%s' % (e, lab), det(*tr) == r * q * q * turns[0] * turns[1])
            c.lemma('radius %d%s' % (e, lab), r > 0)
            c.lemma('signs', And(q * q > 0, turns[0] * turns[1] > 0))
            c.lemma('signs', And(r * q * q > 0, turns[0] * turns[1] > 0))
            # the product of positive numbers (an instance of the ordered-field law)
            c.assume(Implies(And(det(*tr) == r * q * q * turns[0] * turns[1], r * q * q > 0, turns[0] * turns[1] > 0), det(*tr) > 0))
            c.ensure('triangle %d%s faces away from the ring' % (e, lab), det(*tr) > 0)


@contract(P, 'geodesic sphere: vertices on the sphere', SRC)
def _(c):
    m = Mesh_(c, 'm')
    R, n = c.real('radius'), c.int('n', 1)
    c.assume(R > 0)
    seen = []

    def comp(ex, this, args, fn):
        # contract of the tessellation (C11): some mesh; no vertex of a refined icosahedron is its centre
        mi = Mesh_(c, lv=args[0])
        nv, ts = solid_numbers(c, mi)
        seen.append(nv)
        k = ptr_target(c, c.val(args[2]).f['_pKernel'])
        any_kernel(c, 'refined', k)
        vs = c.val(k).f['_vVertices']
        a = z3.Int(fresh_name('a'))
        c.assume(ForAll([a], V.of(vs.get(a, c.ex)).n2() > 0))
        return None

    def merge(ex, this, args, fn):
        # contract of merging (C10): vertices of the result are vertices of the mesh given
        i = c.fresh_int('i', 0, m.nv())
        p = m.vert(i)
        c.ensure('every vertex is at the distance of the radius before merging', p.n2() == R * R)
        tol = args[1]                               # neighbours are about R/n apart, copies of a vertex a rounding error (of the order of 1e-15 R)
        c.ensure('the merging tolerance lies between rounding and the distance of neighbours, at every radius', And(tol * 10**9 >= R / z3.ToReal(n), tol * z3.ToReal(n) * 2 <= R))
        seen.append('merge')
        return None
    f = c.fn('MeshTessellate::compute')
    c.ex.handlers[f.mangled] = comp
    c.ex.used_contracts.add('MeshTessellate::compute (C11)')
    c.ex.handlers[c.fn('MeshUtil::merge_vertices').mangled] = merge
    c.ex.used_contracts.add('MeshUtil::merge_vertices (C10)')
    c.call('MeshFactory::create_sphere_geodesic', None, [R, n, m.lv])
    c.ensure('the icosahedron is refined, then seams are merged', z3.BoolVal(seen == [12, 'merge']))


def solid_numbers(c, m):
    return as_int(z3.simplify(m.nv())), as_int(z3.simplify(m.nt()))
