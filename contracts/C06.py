from .common import *
P = 'C06'
T = [z3.Function('T%s' % a, z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort()) for a in 'xyz']


def image(v):
    return V(*[f(v.x, v.y, v.z) for f in T])


def any_transform(c):
    """an arbitrary transform, known only by its contract: apply(p) replaces p by its image, nothing else"""
    def h(ex, this, args, fn):
        p = ex.rd(args[0])
        f = dict(p.f)
        w = image(V.of(p))
        f['_x'], f['_y'], f['_z'] = w.x, w.y, w.z
        ex.wr(args[0], Struct(p.cls, f))
        return None
    c.handler('Transform::apply', h)
    return c.new('Transform', 't')


def images(c, label, new, old):
    c.ensure(label + ': same number of points', new.len() == old.len())
    j = c.fresh_int('j', 0, old.len())
    c.ensure(label + ': every point replaced by its image, once', V.of(c.at(new, j)).eq(image(V.of(c.at(old, j)))))


@contract(P, 'point list', ['Geometry.cpp', 'Transform.cpp'])
def _(c):
    t = any_transform(c)
    v = c.new('std::vector<Point3>', 'pts')
    old = c.val(v)
    c.call('Transform::apply_all', t, [v])
    images(c, 'list', c.val(v), old)


@contract(P, 'mesh', MESH)
def _(c):
    m = Mesh_(c, 'm')
    t = any_transform(c)
    old = Snap(c)
    c.call('Mesh::apply_transform', m.lv, [t])
    mesh_frame(c, m, old, nv=0, nt=0, verts=False)
    i = c.fresh_int('i', 0, m.nv())
    with old:
        a = m.vert(i)
    c.ensure('every vertex replaced by its image, once', m.vert(i).eq(image(a)))


CP = ['_P1', '_P2', '_P3', '_controlP1P2', '_controlP1P3', '_controlP2P3']


def patch(c, label, new, old):
    for k in old.f:
        if isinstance(old.f[k], Struct):
            c.ensure('%s: control point %s replaced by its image, once' % (label, k), V.of(new.f[k]).eq(image(V.of(old.f[k]))))
        else:
            c.ensure('%s: %s kept' % (label, k), c.eq(new.f[k], old.f[k]))


@contract(P, 'Bezier patch', MESH + ['QuadBezierTriangle.cpp'])
def _(c):
    t = any_transform(c)
    b = c.new('QuadBezierTriangle', 'b')
    old = c.val(b)
    c.call('QuadBezierTriangle::apply_transform', b, [t])
    patch(c, 'patch', c.val(b), old)


@contract(P, 'smooth mesh', MESH + ['QuadBezierTriangle.cpp', 'SmoothMesh.cpp'])
def _(c):
    t = any_transform(c)
    s = c.new('SmoothMesh', 's')
    old = c.val(s).f['_vst']
    c.call('SmoothMesh::apply_transform', s, [t])
    new = c.val(s).f['_vst']
    c.ensure('same number of patches', new.len() == old.len())
    j = c.fresh_int('j', 0, old.len())
    patch(c, 'each patch', c.at(new, j), c.at(old, j))


def surface(c, label, new, old):
    for k in old.f:
        if k == '_points':
            images(c, label, new.f[k], old.f[k])
        elif not k.startswith('_temp'):
            c.ensure('%s: %s kept' % (label, k), c.eq(new.f[k], old.f[k]))


NS = MESH + ['NurbsCurve.cpp', 'NurbsSurface.cpp', 'NurbsSolid.cpp']


@contract(P, 'spline surface', NS)
def _(c):
    t = any_transform(c)
    s = c.new('NurbsSurface', 's')
    old = c.val(s)
    c.call('NurbsSurface::apply_transform', s, [t])
    surface(c, 'surface', c.val(s), old)


@contract(P, 'spline solid', NS)
def _(c):
    t = any_transform(c)
    s = c.new('NurbsSolid', 's')
    old = c.val(s).f['_surfaces']
    c.call('NurbsSolid::apply_transform', s, [t])
    new = c.val(s).f['_surfaces']
    c.ensure('same number of surfaces', new.len() == old.len())
    j = c.fresh_int('j', 0, old.len())
    surface(c, 'each surface', c.at(new, j), c.at(old, j))
