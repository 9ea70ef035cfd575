from .common import *
P = 'C13'
SRC = MESH + ['MeshMeasurements.cpp']
AREA = z3.Function('area', *([z3.RealSort()] * 10))


def start(c):
    m = Mesh_(c, 'm')
    with quiet(c):
        nt = m.nt()

    def corners(i):
        return [m.vert(v) for v in m.tri(i)]
    return m, nt, corners


def total(c, name, term, i):
    """sum of term over the triangles before i: definition unrolled where it is needed"""
    F = z3.Function(name, z3.IntSort(), z3.RealSort())
    c.assume(And(F(I(0)) == 0, F(i + 1) == F(i) + term(i)))
    return F


def summed(c, qname, var, term):
    m, nt, corners = start(c)
    old = Snap(c)
    f = lambda i: If(m.dead(i), z3.RealVal(0), term(*corners(i)))

    def inv(L):
        i = L['i']
        F = total(c, 'total', f, i)
        return [('range', And(0 <= i, i <= nt)), ('sum over the live triangles before', L[var] == F(i))]
    c.loop_inv(qname, 0, inv)
    r = c.call(qname, None, [m.lv])
    F = z3.Function('total', z3.IntSort(), z3.RealSort())
    return m, nt, r, F, old


def area_contract(c):
    """callee contract: the area of a triangle is a function of its corners (which one: C01)"""
    def h(ex, this, args, fn):
        ps = [V.of(c.call('Triangle3::p%d' % i, this)) for i in (1, 2, 3)]
        return AREA(*[x for p in ps for x in p])
    c.ex.handlers[c.fn('Triangle3::surface').mangled] = h
    c.ex.used_contracts.add('Triangle3::surface (C01)')


@contract(P, 'volume', SRC)
def _(c):
    m, nt, r, F, old = summed(c, 'MeshMeasurements::volume', 'volume', lambda a, b, d: det(a, b, d))
    c.ensure('a sixth of the sum of the determinants of the live triangles', r * 6 == F(nt))
    c.ensure('zero for an empty mesh', Implies(nt == 0, r == 0))
    mesh_frame(c, m, old, nv=0, nt=0)


@contract(P, 'area', SRC)
def _(c):
    area_contract(c)
    m, nt, r, F, old = summed(c, 'MeshMeasurements::surface', 'surface', lambda *ps: AREA(*[x for p in ps for x in p]))
    c.ensure('the sum of the areas of the live triangles', r == F(nt))
    c.ensure('zero for an empty mesh', Implies(nt == 0, r == 0))
    mesh_frame(c, m, old, nv=0, nt=0)


@contract(P, 'degenerate triangles', SRC)
def _(c):
    area_contract(c)
    m, nt, corners = start(c)
    old = Snap(c)
    bad = lambda a: And(0 <= a, a < nt, Not(m.dead(a)), AREA(*[x for p in corners(a) for x in p]) == 0)

    def inv(L):
        i = L['i']
        a = z3.Int('a')
        return [('range', And(0 <= i, i <= nt)), ('no degenerate one before', ForAll([a], Implies(a < i, Not(bad(a)))))]
    c.loop_inv('MeshMeasurements::has_no_degenerated_triangles', 0, inv)
    r = c.call('MeshMeasurements::has_no_degenerated_triangles', None, [m.lv])
    a = z3.Int('a')
    c.ensure('true exactly if no live triangle has zero area', r == Not(z3.Exists([a], bad(a))))
    mesh_frame(c, m, old, nv=0, nt=0)


@contract(P, 'outward orientation', SRC)
def _(c):
    m, nt, corners = start(c)
    old = Snap(c)
    vol = z3.Real('volume_of_mesh')
    c.ex.handlers[c.fn('MeshMeasurements::volume').mangled] = lambda ex, this, args, fn: vol
    c.ex.used_contracts.add('MeshMeasurements::volume (above)')
    r = c.call('MeshMeasurements::is_oriented_outside', None, [m.lv])
    c.ensure('outward exactly if the volume is not negative', r == (vol >= 0))
    mesh_frame(c, m, old, nv=0, nt=0)


@contract(P, 'closed', SRC)
def _(c):
    m, nt, corners = start(c)
    ex = c.ex
    near = [z3.Function('near%d' % k, z3.IntSort(), z3.IntSort()) for k in range(3)]

    def get(ex, this, args, fn):
        i = args[0]
        if not ex.quiet:
            c.ensure('asked of a live triangle', And(0 <= i, i < nt, Not(m.dead(i))))
        for o, f in zip(args[1:], near):
            ex.wr(o, f(i))
    ex.handlers[c.fn('Mesh::get_near_triangles').mangled] = get
    ex.used_contracts.add('Mesh::get_near_triangles (the recorded neighbours; -1: none)')
    old = Snap(c)
    a = z3.Int('a')
    open_ = lambda a: And(0 <= a, a < nt, Not(m.dead(a)), Or(*[f(a) == -1 for f in near]))
    c.loop_inv('MeshMeasurements::is_closed', 0, lambda L: [('range', And(0 <= L['i'], L['i'] <= nt)), ('no open one before', ForAll([a], Implies(a < L['i'], Not(open_(a)))))])
    r = c.call('MeshMeasurements::is_closed', None, [m.lv])
    c.ensure('true exactly if every live triangle has a neighbour on each side', r == Not(z3.Exists([a], open_(a))))
    mesh_frame(c, m, old, nv=0, nt=0)


@contract(P, 'clean', SRC)
def _(c):
    m, nt, corners = start(c)
    ex = c.ex
    old = Snap(c)
    tests = {n: z3.Bool(n) for n in ('has_no_degenerated_triangles', 'is_oriented_outside', 'is_closed')}
    for n, b in tests.items():
        ex.handlers[c.fn('MeshMeasurements::' + n).mangled] = lambda ex, this, args, fn, b=b: b
        ex.used_contracts.add('MeshMeasurements::%s (above)' % n)
    r = c.call('MeshMeasurements::is_clean', None, [m.lv])
    for n, b in tests.items():
        c.ensure('clean only if ' + n.replace('_', ' '), Implies(r, b))
    mesh_frame(c, m, old, nv=0, nt=0)
