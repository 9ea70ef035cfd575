from .common import *
P = 'C15'
CUR = GEO + ['NurbsCurve.cpp']
SUR = MESH + ['NurbsSurface.cpp', 'NurbsCurve.cpp']
SIDES = {'curve': ('NurbsCurve', 'set_knots', '_knots', 'set_uniform', '_degree', '_iNbPoints', CUR),
         'surface, u': ('NurbsSurface', 'set_knots_u', '_knotsU', 'set_uniform_u', '_degreeU', '_iNbPointsU', SUR),
         'surface, v': ('NurbsSurface', 'set_knots_v', '_knotsV', 'set_uniform_v', '_degreeV', '_iNbPointsV', SUR)}


def knots(c, name='k', lo=2):
    k = c.new('std::vector<double>', name)
    v = c.val(k)
    c.assume(And(v.len() >= lo, v.len() < 2 ** 30))
    return k, v


def scaling(c, cls, k):
    """invariants of scale_knots: least and greatest of the values met so far; the first i values are rescaled"""
    FN = cls + '::scale_knots'

    def inv0(L):
        i, lo, hi = L['i'], L['dMin'], L['dMax']
        q = z3.Int('q')
        a = lambda t: c.at(k, t)
        return [('range', And(1 <= i, i <= k.len())), ('bounds', ForAll(q, Implies(And(0 <= q, q < i), And(lo <= a(q), a(q) <= hi)))),
                ('attained', And(z3.Exists(q, And(0 <= q, q < i, a(q) == lo)), z3.Exists(q, And(0 <= q, q < i, a(q) == hi))))]
    c.loop_inv(FN, 0, inv0)


def normalised(c, side):
    cls, setter, field, _, _, _, _ = SIDES[side]
    o = c.construct(cls)
    kl, k = knots(c)
    i0, i1 = c.fresh_int('i0', 0, k.len()), c.fresh_int('i1', 0, k.len())
    c.assume(c.at(k, i0) != c.at(k, i1))         # the knots are not all equal
    scaling(c, cls, k)
    before = c.val(o)
    c.call('%s::%s' % (cls, setter), o, [kl])
    after = c.val(o)
    n = after.f[field]
    c.ensure('as many knots as given', n.len() == k.len())
    p, q, r = [c.fresh_int(x, 0, k.len()) for x in 'pqr']
    a, b = (lambda x: c.at(k, x)), (lambda x: c.at(n, x))
    c.lemma('within 0 and 1', And(0 <= b(p), b(p) <= 1))
    j = z3.Int('j')
    c.ensure('0 is attained', z3.Exists(j, And(0 <= j, j < k.len(), b(j) == 0)))
    c.ensure('1 is attained', z3.Exists(j, And(0 <= j, j < k.len(), b(j) == 1)))
    c.ensure('order kept', And((a(p) < a(q)) == (b(p) < b(q)), (a(p) == a(q)) == (b(p) == b(q))))
    c.ensure('spacing ratios kept', (b(p) - b(q)) * (a(r) - a(q)) == (b(r) - b(q)) * (a(p) - a(q)))
    c.ensure('the argument is left alone', c.eq(c.val(kl), k))
    for f in before.f:
        if f != field:
            c.ensure('%s left alone' % f, c.eq(after.f[f], before.f[f]))


def uniform(c, side):
    cls, setter, field, uni, fd, fn, _ = SIDES[side]
    o = c.construct(cls)
    d, n = c.int('degree', 0), c.int('points', 1)
    c.assume(And(d < n, n < 2 ** 20))
    s = c.val(o)
    f = dict(s.f)
    f[fd], f[fn] = d, n
    c.ex.wr(o, Struct(s.cls, f))
    # contract of scale_knots: the affine image with least value 0 and greatest 1 (proved in: setting knots)
    got = []

    def sk(ex, this, args, fn):
        v = ex.rd(args[0])
        got.append(v)
    ex = c.ex
    ex.handlers[c.fn(cls + '::scale_knots').mangled] = sk
    ex.used_contracts.add(cls + '::scale_knots (the affine image of its argument onto [0,1]: setting knots)')
    c.call('%s::%s' % (cls, uni), o)
    v = got[0]
    c.ensure('scaled once', z3.BoolVal(len(got) == 1))
    c.ensure('number of knots', v.len() == n + d + 1)
    i = c.fresh_int('i', 0, n + d + 1)
    x = c.at(v, i)
    c.ensure('clamped start', Implies(i <= d, x == 0))
    c.ensure('clamped end', Implies(i >= n, x == realv(n - d)))
    c.ensure('equally spaced inside', Implies(And(i > d, i < n), x == realv(i - d)))


def span(c, cls):
    kl, k = knots(c)
    t = c.real('t')
    n = k.len()
    a = lambda x: c.at(k, x)
    c.assume(And(a(I(0)) == 0, a(n - 1) == 1))
    tt = If(t < 0, z3.RealVal(0), If(t > 1, z3.RealVal(1), t))

    def inv(L):
        i = L['i']
        return [('range', And(0 <= i, i <= n - 1)), ('parameter', L['t'] == tt),
                ('not passed yet', And(Implies(tt < 1, a(i) <= tt), Implies(tt == 1, a(i) < 1)))]
    FN = cls + '::find_knot_span'
    c.loop_inv(FN, 0, inv)
    r = c.call(FN, None, [kl, t])
    c.ensure('a span of the knot vector', And(0 <= r, r < n - 1))
    c.ensure('contains the parameter', And(a(r) <= tt, Or(tt < a(r + 1), And(tt == 1, a(r + 1) == 1))))
    c.ensure('not empty', a(r) < a(r + 1))
    d, m = c.int('degree', 0), c.int('points', 1)
    with c.under(n == m + d + 1, And(*[And(Implies(x <= d, a(x) == 0), Implies(x >= m, a(x) == 1)) for x in (r, r + 1)])):
        c.ensure('of a clamped knot vector: one of the inner spans', And(d <= r, r < m))
    j = c.fresh_int('j', 0, n - 1)
    # the knots do not decrease (instances needed)
    c.assume(And(Implies(j + 1 <= r, a(j + 1) <= a(r)), Implies(r + 1 <= j, a(r + 1) <= a(j)), Implies(j <= r, a(j) <= a(r)), Implies(j >= r, a(r + 1) <= a(j + 1))))
    c.assume(And(*[a(x) <= 1 for x in (r, r + 1, j, j + 1)]))
    mine = And(a(j) < a(j + 1), a(j) <= tt, Or(tt < a(j + 1), And(tt == 1, a(j + 1) == 1)))
    c.ensure('no other one does', Implies(mine, j == r))


for _side in SIDES:
    contract(P, 'setting knots: ' + _side, SIDES[_side][-1])(lambda c, s=_side: normalised(c, s))
    contract(P, 'uniform knots: ' + _side, SIDES[_side][-1])(lambda c, s=_side: uniform(c, s))
for _cls, _src in (('NurbsCurve', CUR), ('NurbsSurface', SUR)):
    contract(P, 'span: ' + _cls, _src)(lambda c, s=_cls: span(c, s))
