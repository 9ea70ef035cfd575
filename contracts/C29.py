from .common import *
from .C14 import NAMES
P = 'C29'
SRC = MESH + ['QuadBezierTriangle.cpp', 'SmoothMesh.cpp', 'SmoothMeshFactory.cpp']
FIELDS = dict(zip(NAMES, ('_P1', '_P2', '_P3', '_controlP1P2', '_controlP1P3', '_controlP2P3')))


def former(c):
    """a smooth mesh that already holds any number of patches"""
    m = c.construct('SmoothMesh')
    s = c.val(m)
    c.ex.wr(m, type(s)(s.cls, dict(s.f, _vst=c.sym('std::vector<QuadBezierTriangle>', 'former'))))
    return m


def patches(c, m):
    v = c.val(m).f['_vst']
    n = as_int(z3.simplify(v.len()))
    if n is None:
        raise Unsupported('smooth mesh of unknown size')
    out = []
    for i in range(n):
        f = c.at(v, i).f
        out.append(({n: V.of(f[FIELDS[n]]) for n in NAMES}, [f[w] for w in ('_wP1', '_wP2', '_wP3', '_wP1P2', '_wP1P3', '_wP2P3')]))
    return out


def sides(p):
    """oriented sides: from, control point, to"""
    return [(p['P1'], p['C12'], p['P2']), (p['P2'], p['C23'], p['P3']), (p['P3'], p['C13'], p['P1'])]


def number(x, point):
    """value of a coordinate for given sizes, to find the partner of a side (what is found is then proved)"""
    x = z3.simplify(z3.substitute(z3.substitute(x, *point), (SQRT(z3.RealVal(5)), z3.RealVal('2.2360679774997896'))))
    return float(x.as_fraction()) if z3.is_rational_value(x) else None


def closed(c, ps, point):
    ss = [(i, s) for i, (p, _) in enumerate(ps) for s in sides(p)]
    val = [[number(x, point) for q in s for x in q] for _, s in ss]
    back = [v[6:] + v[3:6] + v[:3] if None not in v else None for v in val]
    same = lambda a, b: None not in a and b is not None and all(abs(x - y) < 1e-9 for x, y in zip(a, b))
    eq = lambda s, t: And(s[0].eq(t[2]), s[1].eq(t[1]), s[2].eq(t[0]))
    for k, (i, s) in enumerate(ss):
        mates = [l for l in range(len(ss)) if same(val[k], back[l])]
        if None in val[k]:
            goal = Or(*[eq(s, t) for l, (_, t) in enumerate(ss) if l != k])
        else:
            goal = eq(s, ss[mates[0]][1]) if mates else z3.BoolVal(False)
        c.ensure('side %d of patch %d is the side of another patch, run backwards' % (k % 3, i), goal)
        c.ensure('side %d of patch %d occurs once' % (k % 3, i), z3.BoolVal(len(mates) <= 1 and len([l for l in range(len(ss)) if None not in val[k] and val[l] == val[k]]) <= 1))
    for i, (p, w) in enumerate(ps):
        c.ensure('patch %d faces outward' % i, det(p['P1'], p['P2'], p['P3']) > 0)
        c.ensure('patch %d has equal weights' % i, And(*[x == 1 for x in w]))


def flat(c, ps):
    for i, (p, _) in enumerate(ps):
        for a, b, m in (('P1', 'P2', 'C12'), ('P1', 'P3', 'C13'), ('P2', 'P3', 'C23')):
            c.ensure('patch %d is flat: %s' % (i, m), (p[m] * 2).eq(p[a] + p[b]))


def platonic(name, n, where):
    @contract(P, 'smooth ' + name, SRC)
    def _(c):
        m = former(c)
        d = c.real('size')
        c.assume(d > 0)
        c.call('SmoothMeshFactory::create_' + name, None, [d, m])
        ps = patches(c, m)
        c.ensure('number of patches', z3.BoolVal(len(ps) == n))
        closed(c, ps, [(d, z3.RealVal(1))])
        flat(c, ps)
        for i, (p, _) in enumerate(ps):
            for k in ('P1', 'P2', 'P3'):
                c.ensure('corner %s of patch %d is at the distance of the corners' % (k, i), p[k].n2() == where(d))


S5 = SQRT(z3.RealVal(5))
platonic('tetrahedron', 4, lambda d: 3 * d * d)
platonic('octahedron', 8, lambda d: d * d)
platonic('dodecahedron', 36, lambda d: 3 * d * d)
platonic('icosahedron', 20, lambda d: d * d + ((S5 - 1) / 2 * d) * ((S5 - 1) / 2 * d))


@contract(P, 'smooth box', SRC)
def _(c):
    m = former(c)
    s = [c.real(x) for x in ('sx', 'sy', 'sz')]
    for x in s:
        c.assume(x > 0)
    c.call('SmoothMeshFactory::create_box', None, s + [m])
    ps = patches(c, m)
    c.ensure('number of patches', z3.BoolVal(len(ps) == 12))
    closed(c, ps, list(zip(s, [z3.RealVal(x) for x in (2, 3, 5)])))
    flat(c, ps)
    for i, (p, _) in enumerate(ps):
        for k in ('P1', 'P2', 'P3'):
            c.ensure('corner %s of patch %d is a corner of the box' % (k, i), And(*[Or(2 * x == y, 2 * x == -y) for x, y in zip(p[k], s)]))


@contract(P, 'smooth sphere', SRC)
def _(c):
    m = former(c)
    d = c.real('radius')
    c.assume(d > 0)
    c.call('SmoothMeshFactory::create_sphere', None, [d, m])
    ps = patches(c, m)
    c.ensure('number of patches', z3.BoolVal(len(ps) == 8))
    closed(c, ps, [(d, z3.RealVal(1))])
    dot = lambda a, b: a.x * b.x + a.y * b.y + a.z * b.z
    for i, (p, _) in enumerate(ps):
        for k in ('P1', 'P2', 'P3'):
            c.ensure('corner %s of patch %d lies on the sphere' % (k, i), p[k].n2() == d * d)
        for a, b, k in (('P1', 'P2', 'C12'), ('P1', 'P3', 'C13'), ('P2', 'P3', 'C23')):
            c.ensure('patch %d touches the sphere along %s' % (i, k), And(dot(p[k], p[a]) == d * d, dot(p[k], p[b]) == d * d))


# ------------------------------------------------------------------ the building blocks
def blocks(c, n, tris):
    m = c.construct('SmoothMesh')
    s = c.val(m)
    old = c.sym('std::vector<QuadBezierTriangle>', 'former')
    c.ex.wr(m, type(s)(s.cls, dict(s.f, _vst=old)))
    pts = [pt(c, 'p%d' % i) for i in range(n)]
    c.call('SmoothMesh::add_flat_' + {3: 'triangle', 4: 'quad', 5: 'pentagon'}[n], m, [p for p, _ in pts])
    v = c.val(m).f['_vst']
    c.ensure('patches added', v.len() == old.len() + len(tris))
    j = c.fresh_int('j', 0, old.len())
    c.ensure('those before stay', c.of(j, c.eq(c.at(v, j), c.at(old, j))))
    # the triangles cover the polygon: its sides once, run forwards; every other side is met by another one run backwards
    es, ctl = [], []
    for t in range(len(tris)):
        f = c.at(v, old.len() + t).f
        p = {k: V.of(f[FIELDS[k]]) for k in NAMES}
        for a, b, k in (('P1', 'P2', 'C12'), ('P1', 'P3', 'C13'), ('P2', 'P3', 'C23')):
            ctl.append((p[k] * 2).eq(p[a] + p[b]))
        es += [(a, b) for a, _, b in sides(p)]
    for k in range(n):
        a, b = pts[k][1], pts[(k + 1) % n][1]
        c.ensure('side %d of the polygon' % k, Or(*[And(e[0].eq(a), e[1].eq(b)) for e in es]))
    c.ensure('flat', And(*ctl))
    c.ensure('number of sides', z3.BoolVal(len(es) == n + 2 * (n - 3)))


for _n, _t in ((3, 1), (4, 2), (5, 3)):
    contract(P, 'flat polygon of %d sides' % _n, SRC)(lambda c, n=_n, t=_t: blocks(c, n, range(t)))
