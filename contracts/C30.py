from .common import *
P = 'C30'
TOL = z3.Q(10001, 10000) * z3.Q(1, 10 ** 10)


def two(c):
    s, (a, b) = seg(c, 's')
    t, (d, e) = seg(c, 't')
    return s, t, a, b - a, d, e - d


@contract(P, 'segments of different directions', GEO)
def _(c):
    s, t, a, u, d, v = two(c)
    W = u.cross(v)
    out, vo = pt(c, 'out')
    c.assume(And(W.n2() >= TOL, u.n2() >= z3.Q(1, 10 ** 19), v.n2() >= z3.Q(1, 10 ** 19)))
    s0, t0 = c.val(s), c.val(t)
    # place on the line of s of its point nearest the line of t: a + u * (N / |W|^2)
    N = (d - a).cross(v).dot(W)
    c.lemma('Lagrange', W.n2() == u.n2() * v.n2() - u.dot(v) * u.dot(v))
    m = c.real('place')
    c.assume(m * W.n2() == N)
    c.lemma('ends', And((m >= 0) == (N >= 0), (m <= 1) == (N <= W.n2())))
    r = c.call('Segment3::intersect', s, [t, out])
    q = V.of(c.val(out))
    c.ensure('reported if and only if that point lies between the ends', r == And(m >= 0, m <= 1))
    c.ensure('the point returned is that point', Implies(r, q.eq(a + u * m)))
    c.ensure('nothing written otherwise', Implies(Not(r), q.eq(vo)))
    c.unchanged('first segment unchanged', s, s0)
    c.unchanged('second segment unchanged', t, t0)


@contract(P, 'that point is the nearest one', [])
def _(c):
    """what the place above means: the point differs from a point of the other line at right angles to both, hence is the crossing if they cross"""
    a, u, d, v = [V(*[c.real(n + x) for x in 'xyz']) for n in 'audv']
    W = u.cross(v)
    c.assume(W.n2() > 0)
    m = c.real('place')
    N = (d - a).cross(v).dot(W)
    c.assume(m * W.n2() == N)
    g = c.real('gap')           # signed distance of the lines over |W|
    c.assume(g * W.n2() == (d - a).dot(W))
    h = c.real('place2')        # its foot on the other line
    c.assume(h * W.n2() == (d - a).cross(u).dot(W))
    q, f = a + u * m, d + v * h
    k = W.n2()
    c.ensure('the gap is at right angles to both', And(*[x * k == y * k for x, y in zip(f - q, W * g)]))
    x, y = c.real('x'), c.real('y')
    with c.under((a + u * x).eq(d + v * y)):
        c.lemma('crossing', (d - a).eq(u * x - v * y))
        c.lemma('numerator', (d - a).cross(v).dot(W) == x * k)
        c.lemma('product', (m - x) * k == 0)
        c.ensure('lines that cross do so there', m == x)


@contract(P, 'parallel and degenerate segments', GEO)
def _(c):
    s, t, a, u, d, v = two(c)
    W = u.cross(v)
    out, vo = pt(c, 'out')
    c.lemma('Lagrange', W.n2() == u.n2() * v.n2() - u.dot(v) * u.dot(v))
    c.assume(W.eq(V(0, 0, 0)))
    c.lemma('none', u.n2() * v.n2() - u.dot(v) * u.dot(v) == 0)
    r = c.call('Segment3::intersect', s, [t, out])
    c.ensure('not reported', Not(r))
    c.ensure('nothing written', V.of(c.val(out)).eq(vo))
