from .spline import *
from .C11 import tiles_cell
P = 'C21'
UT = SUR + ['NurbsUtil.cpp', 'NurbsSolid.cpp', 'NurbsFactory.cpp', 'NurbsRuled.cpp', 'NurbsRevolve.cpp']


def eval_contract(c, ns):
    """NurbsSurface::evaluate writes the point of the surface at (u,v) and changes nothing observable (C18)"""
    E = [z3.Function('surface_' + x, z3.RealSort(), z3.RealSort(), z3.RealSort()) for x in 'xyz']

    def h(ex, this, args, fn):
        if not ex.quiet:
            u, v = args[0], args[1]
            c.ensure('parameters inside the domain', And(0 <= u, u <= 1, 0 <= v, v <= 1))
        if ns is not None and (this.root, this.path) != (ns.root, ns.path):
            raise Unsupported('another surface is evaluated')
        ex.wr(args[2], mkpt(c, *[f(args[0], args[1]) for f in E]))
    c.ex.handlers[c.fn('NurbsSurface::evaluate').mangled] = h
    c.ex.used_contracts.add('NurbsSurface::evaluate (the point of the surface at (u,v): C18)')
    return lambda u, v: V(*[f(u, v) for f in E])


B = lambda f: If(f, I(1), I(0))


def at_entry(c, L, x):
    """value of a ghost when the loop was entered"""
    st = c.ex.st
    c.ex.st = L.base
    try:
        return c.ex.rd(x)
    finally:
        c.ex.st = st


def meshing(c, clear):
    """NurbsUtil::to_mesh against the contracts of Mesh::add_vertex (returns the next id: C07) and Mesh::add_quad (two live
    triangles that tile the quad in the given order: C08); ghosts follow one arbitrary grid node and one arbitrary cell"""
    s = Surface(c)
    ns, ex = s.lv, c.ex
    m = Mesh_(c, 'm')
    seg = c.int('segments', 0)
    NU, NV = seg * s.u.n, seg * s.v.n
    c.assume(And(seg < 2 ** 14, (NU + 1) * (NV + 1) < 2 ** 28, NU < 2 ** 28, NV < 2 ** 28))
    EV = eval_contract(c, ns)
    nv0 = I(0) if clear else m.nv()
    nt0 = I(0) if clear else m.nt()
    before = c.val(ns)
    cu, cv = c.call('NurbsSurface::is_closed_u', ns), c.call('NurbsSurface::is_closed_v', ns)
    gu, gv = c.fresh_int('node_u', 0), c.fresh_int('node_v', 0)
    c.assume(And(gu <= NU, gv <= NV))
    qu, qv = c.fresh_int('cell_u', 0), c.fresh_int('cell_v', 0)
    nodes, seen, cells, tiled = [c.obj(I(0), n) for n in ('nodes', 'seen', 'cells', 'tiled')]
    F = 'NurbsUtil::to_mesh'
    var = lambda n: frame_var(c, F, n)

    def add_vertex(ex, this, args, fn):
        u, v, k = var('u'), var('v'), ex.rd(nodes)
        p = V.of(ex.rd(args[0]))
        if not ex.quiet:
            c.ensure('vertices are added before the quads', ex.rd(cells) == 0)
            c.ensure('each vertex is the surface point of its node', And(0 <= u, u <= NU, 0 <= v, v <= NV, p.eq(EV(realv(u) / realv(NU), realv(v) / realv(NV)))))
            c.ensure('and has the number of its node', k == u + (NU + 1) * v)
        ex.wr(seen, ex.rd(seen) + B(And(u == gu, v == gv)))
        ex.wr(nodes, k + 1)
        return nv0 + k

    def add_quad(ex, this, args, fn):
        u, v = var('u'), var('v')
        ue, ve = If(And(cu, u == NU - 1), 0, u + 1), If(And(cv, v == NV - 1), 0, v + 1)
        at = lambda a, b: nv0 + a + (NU + 1) * b
        want = [at(u, v), at(ue, v), at(ue, ve), at(u, ve)]
        if not ex.quiet:
            c.ensure('a quad has the corners of one cell in order, seams joined', And(0 <= u, u < NU, 0 <= v, v < NV, Or(*[And(*[x == want[(i + r) % 4] for i, x in enumerate(args)]) for r in range(4)])))
            c.ensure('whose vertices exist', And(*[And(0 <= x, x < nv0 + ex.rd(nodes)) for x in args]))
        ex.wr(tiled, ex.rd(tiled) + B(And(u == qu, v == qv)))
        ex.wr(cells, ex.rd(cells) + 1)
    ex.handlers[c.fn('Mesh::add_vertex', ['const Point3 &']).mangled] = add_vertex
    ex.handlers[c.fn('Mesh::add_quad', ['int'] * 4).mangled] = add_quad
    ex.used_contracts.add('Mesh::add_vertex (the next id: C07)')
    ex.used_contracts.add('Mesh::add_quad (two live triangles tiling the quad: C08)')
    e = lambda L, x: at_entry(c, L, x)
    r = lambda x: ex.rd(x)
    c.loop_inv(F, 0, lambda L: [('range', And(0 <= L['v'], L['v'] <= NV + 1)), ('nodes of the lines done', r(nodes) == (NU + 1) * L['v']), ('each node once', r(seen) == B(gv < L['v'])), ('no quad yet', r(cells) == 0)])
    c.loop_inv(F, 1, lambda L: [('range', And(0 <= L['u'], L['u'] <= NU + 1)), ('nodes of this line', r(nodes) == e(L, nodes) + L['u']), ('each node once', r(seen) == e(L, seen) + B(And(gv == L['v'], gu < L['u']))), ('no quad yet', r(cells) == 0)])
    c.loop_inv(F, 2, lambda L: [('range', And(0 <= L['v'], L['v'] <= NV)), ('cells of the lines done', r(cells) == NU * L['v']), ('each cell once', r(tiled) == B(And(qu < NU, qv < L['v']))), ('nodes', r(nodes) == (NU + 1) * (NV + 1))])
    c.loop_inv(F, 3, lambda L: [('range', And(0 <= L['u'], L['u'] <= NU)), ('cells of this line', r(cells) == e(L, cells) + L['u']), ('each cell once', r(tiled) == e(L, tiled) + B(And(qv == L['v'], qu < L['u']))), ('nodes', r(nodes) == (NU + 1) * (NV + 1))])
    old = Snap(c)
    c.call(F, None, [ns, m.lv, seg, z3.BoolVal(clear)], params=['const NurbsSurface &', 'Mesh &', 'int', 'bool'])
    with c.under(seg > 0):
        c.ensure('every node of the grid has its vertex', r(seen) == 1)
        c.ensure('one vertex for each node', r(nodes) == (NU + 1) * (NV + 1))
        c.ensure('every cell is covered exactly once', r(tiled) == B(And(qu < NU, qv < NV)))
        c.ensure('nothing but cells', r(cells) == NU * NV)
    with c.under(seg == 0):
        c.ensure('no segments, nothing added', And(r(nodes) == 0, r(cells) == 0))
    c.ensure('the rest of the mesh: emptied when asked, kept otherwise', And(m.nv() == nv0, m.nt() == nt0))
    if not clear:
        mesh_frame(c, m, old)
    c.unchanged('the surface is left alone', ns, before)


@contract(P, 'mesh of a surface', UT)
def _(c):
    meshing(c, True)


@contract(P, 'mesh of a surface appended to another mesh', UT)
def _(c):
    meshing(c, False)


@contract(P, 'mesh of a solid', UT)
def _(c):
    n, m, ex = c.construct('NurbsSolid'), Mesh_(c, 'm'), c.ex
    f = c.sym('std::vector<NurbsSurface>', 'faces')
    k = f.len()
    c.assume(k < 2 ** 20)
    s = c.val(n)
    c.ex.wr(n, Struct(s.cls, dict(s.f, _surfaces=f)))
    seg = c.int('segments', 0)
    T = c.fresh_int('T', 0, k)
    hit, cnt = c.obj(I(0), 'hit'), c.obj(I(0), 'cnt')

    def one(ex, this, args, fn):
        i = ex.rd(cnt)
        if not ex.quiet:
            c.ensure('the next surface is meshed', c.eq(c.call('NurbsSurface::points', args[0], const=True), c.at(f, i).f['_points']))
            c.ensure('into this mesh, with the segments asked for, keeping the others', And(z3.BoolVal((args[1].root, args[1].path) == (m.lv.root, m.lv.path)), args[2] == seg, Not(args[3])))
        ex.wr(hit, ex.rd(hit) + B(i == T))
        ex.wr(cnt, i + 1)
    ex.handlers[c.fn('NurbsUtil::to_mesh', ['const NurbsSurface &', 'Mesh &', 'int', 'bool']).mangled] = one
    ex.used_contracts.add('NurbsUtil::to_mesh(surface) (above)')
    c.loop_inv('NurbsUtil::to_mesh', 0, lambda L: [('surfaces so far', And(0 <= L.position(), L.position() <= k, ex.rd(cnt) == L.position())), ('each once', ex.rd(hit) == B(T < L.position()))])
    c.call('NurbsUtil::to_mesh', None, [n, m.lv, seg], params=['const NurbsSolid &', 'Mesh &', 'int'])
    c.ensure('every surface exactly once', c.of(T, ex.rd(hit) == 1))
    c.ensure('as many as there are', ex.rd(cnt) == k)
    c.ensure('what the mesh had before is gone', And(m.nt() == 0, m.nv() == 0))


@contract(P, 'surface from a height map', UT)
def _(c):
    ns = Surface(c, 'old').lv
    z = c.new('std::vector<double>', 'z')
    nx, ny, d = c.int('nx', 1), c.int('ny', 1), c.int('d', 0)
    c.assume(And(nx < 2 ** 14, ny < 2 ** 14, d < nx, d < ny))
    zv = c.val(z)
    c.assume(zv.len() == nx * ny)
    c.ex.handlers[c.fn('NurbsSurface::scale_knots').mangled] = lambda ex, this, args, fn: None
    c.ex.used_contracts.add('NurbsSurface::scale_knots (the affine image onto [0,1]: C15; here left out)')
    c.call('NurbsUtil::create_from_z', None, [z, nx, ny, d, ns])
    g = lambda k, **kw: c.call('NurbsSurface::' + k, ns, **kw)
    nu, nv, p, w = g('nb_points_u'), g('nb_points_v'), g('points', const=True), g('weights', const=True)
    c.ensure('a point and a weight for each sample', And(p.len() == nx * ny, w.len() == nx * ny))
    c.ensure('degrees', And(g('degree_u') == d, g('degree_v') == d))
    c.ensure('the control grid has the size of the map', And(nu == ny, nv == nx))
    c.ensure('as many knots as required', And(g('knots_u').len() == nu + d + 1, g('knots_v').len() == nv + d + 1))
    x, y = c.fresh_int('x', 0, nx), c.fresh_int('y', 0, ny)
    k = y + nu * x         # u runs along y, v along x
    c.ensure('each control point is at its own grid position', V.of(c.at(p, k)).eq(V(realv(x), realv(y), c.at(zv, x * ny + y))))
    c.ensure('equal weights', c.at(w, k) == 1)
    c.unchanged('the samples are only read', z, zv)


@contract(P, 'mesh of the control points', UT)
def _(c):
    s = Surface(c)
    m = Mesh_(c, 'm')
    ex = c.ex
    nu, nv = s.u.n, s.v.n
    c.assume(nu * nv < 2 ** 26)
    before = c.val(s.lv)
    # ghost: one arbitrary control cell, and how often it was covered
    u0, v0 = c.fresh_int('u0', 0, nu - 1), c.fresh_int('v0', 0, nv - 1)
    hit, cnt = c.obj(I(0), 'hit'), c.obj(I(0), 'cnt')
    F = 'NurbsUtil::to_controlpoints_mesh'

    def add(ex, this, args, fn):
        u, v = frame_var(c, F, 'u'), frame_var(c, F, 'v')
        p = [V.of(ex.rd(x)) for x in args[:4]]
        q = [s.P(u, v), s.P(u + 1, v), s.P(u + 1, v + 1), s.P(u, v + 1)]
        if not ex.quiet:
            c.ensure('a quad has the corners of one cell, in order', And(0 <= u, u < nu - 1, 0 <= v, v < nv - 1, Or(*[And(*[x.eq(q[(i + k) % 4]) for i, x in enumerate(p)]) for k in range(4)])))
        ex.wr(hit, ex.rd(hit) + If(And(u == u0, v == v0), I(1), I(0)))
        ex.wr(cnt, ex.rd(cnt) + 1)
    ex.handlers[c.fn('Mesh::add_quad', ['const Point3 &'] * 4 + ['bool']).mangled] = add
    ex.used_contracts.add('Mesh::add_quad(points) (appends two live triangles that cover the quad, oriented: C08)')

    before_ = lambda L, x: at_entry(c, L, x)
    c.loop_inv(F, 0, lambda L: [('range', And(0 <= L['u'], L['u'] <= nu - 1)), ('each cell once', c.of(v0, ex.rd(hit) == B(u0 < L['u']))), ('count', ex.rd(cnt) == L['u'] * (nv - 1))])
    c.loop_inv(F, 1, lambda L: [('range', And(0 <= L['v'], L['v'] <= nv - 1)), ('cells of this line', ex.rd(hit) == before_(L, hit) + B(And(L['u'] == u0, v0 < L['v']))), ('count', ex.rd(cnt) == before_(L, cnt) + L['v'])])
    c.call(F, None, [s.lv, m.lv])
    c.ensure('every control cell exactly once', c.of(u0, c.of(v0, ex.rd(hit) == 1)))
    c.ensure('nothing but control cells', ex.rd(cnt) == (nu - 1) * (nv - 1))
    c.ensure('what the mesh had before is gone', And(m.nt() == 0, m.nv() == 0))       # add_quad is replaced by its contract here
    c.unchanged('the surface is left alone', s.lv, before)


@contract(P, 'solid from a mesh', UT)
def _(c):
    m = Mesh_(c, 'm')
    n = c.construct('NurbsSolid')
    c.call('NurbsSolid::add_surface', n, [Surface(c, 'old').lv])
    ex = c.ex
    nt = m.nt()
    T = c.fresh_int('T', 0, nt)
    hit, cnt = c.obj(I(0), 'hit'), c.obj(I(0), 'cnt')
    cur = {}
    old = Snap(c)

    def tri_(ex, this, args, fn):
        cur['p'] = [V.of(ex.rd(x)) for x in args[:3]]
        cur['lv'] = args[3]

    def add(ex, this, args, fn):
        i = frame_var(c, 'NurbsUtil::create_from_mesh', 'i')
        if not ex.quiet:
            c.ensure('the surface added is that of triangle i, in its order', And(*[p.eq(m.vert(k)) for p, k in zip(cur['p'], m.tri(i))]))
            c.ensure('of a live triangle', Not(m.dead(i)))
        ex.wr(hit, ex.rd(hit) + If(i == T, I(1), I(0)))
    ex.handlers[c.fn('NurbsFactory::create_triangle').mangled] = tri_
    ex.handlers[c.fn('NurbsSolid::add_surface').mangled] = add
    ex.used_contracts.add('NurbsFactory::create_triangle (the flat surface of the three corners: C20)')
    ex.used_contracts.add('NurbsSolid::add_surface (appends a copy of the surface: C09)')
    c.loop_inv('NurbsUtil::create_from_mesh', 0, lambda L: [('range', And(0 <= L['i'], L['i'] <= nt)), ('each triangle once', ex.rd(hit) == B(And(T < L['i'], Not(m.dead(T)))))])
    c.call('NurbsUtil::create_from_mesh', None, [m.lv, n])
    c.ensure('every live triangle exactly once, no other', ex.rd(hit) == B(Not(m.dead(T))))
    c.ensure('what the solid had before is gone', c.call('NurbsSolid::surfaces', n, const=True).len() == 0)      # add_surface is replaced by its contract
