from .common import *
from vcg.values import Base, parse_type
P = 'C09'
ALL = MESH + ['QuadBezierTriangle.cpp', 'SmoothMesh.cpp', 'Face.cpp', 'Solid.cpp']


def mesh_with(c, name, live=True):
    m = Mesh_(c, name)
    if live:
        RANGES[name + '.t._unlinked'] = (0, 0)      # this contract: the source has no removed triangle
    return m


def same_mesh(c, label, m, s):
    """m holds the vertices, triangles and colour of s (no removed triangle in s)"""
    c.ensure(label + ': vertex count', m.nv() == s.nv())
    c.ensure(label + ': triangle count', m.nt() == s.nt())
    c.ensure(label + ': colour', m.color() == s.color())
    i = c.fresh_int('i', 0, s.nv())
    c.ensure(label + ': every vertex', m.vert(i).eq(s.vert(i)))
    j = c.fresh_int('j', 0, s.nt())
    c.ensure(label + ': every triangle', And(*[a == b for a, b in zip(m.tri(j), s.tri(j))]))
    c.ensure(label + ': live', Not(m.dead(j)))


def mutate(c, m):
    """a later change of every kind"""
    p, vp = pt(c, fresh_name('w'))
    i = c.fresh_int('wi', 0, m.nv())
    c.call('Mesh::set_vertex', m.lv, [i, p])
    c.call('Mesh::add_vertex', m.lv, [p], params=['const Point3 &'])
    j = c.fresh_int('wj', 0, m.nt())
    c.call('Mesh::unlink_triangle', m.lv, [j])
    c.call('Mesh::add_triangle', m.lv, [I(0), I(0), I(0)], params=['int', 'int', 'int'])
    c.call('Mesh::set_color', m.lv, [c.int(fresh_name('wc'))])


def independent(c, a, b):
    old = Snap(c)
    mutate(c, a)
    mesh_frame(c, b, old, nv=0, nt=0)


@contract(P, 'copy construction of a mesh', MESH)
def _(c):
    s = mesh_with(c, 's')
    old = Snap(c)
    m = Mesh_(c, lv=c.construct('Mesh', 'void (const Mesh &)', [s.lv]))
    same_mesh(c, 'copy', m, s)
    mesh_frame(c, s, old, nv=0, nt=0)
    st = c.ex.st
    c.ex.st = st.copy()
    independent(c, m, s)
    c.ex.st = st.copy()
    independent(c, s, m)


@contract(P, 'assignment of a mesh', MESH)
def _(c):
    s = mesh_with(c, 's')
    m = mesh_with(c, 'm', live=False)
    old = Snap(c)
    r = c.call_lv('Mesh::operator=', m.lv, [s.lv])
    same_mesh(c, 'assigned', m, s)
    mesh_frame(c, s, old, nv=0, nt=0)
    st = c.ex.st
    c.ex.st = st.copy()
    independent(c, m, s)
    c.ex.st = st.copy()
    independent(c, s, m)


@contract(P, 'self assignment of a mesh', MESH)
def _(c):
    m = mesh_with(c, 'm', live=False)
    old = Snap(c)
    c.call_lv('Mesh::operator=', m.lv, [m.lv])
    mesh_frame(c, m, old, nv=0, nt=0)


def appended(c, m, s, old):
    with old:
        nv0, nt0 = m.nv(), m.nt()
        nv1, nt1 = s.nv(), s.nt()
    mesh_frame(c, m, old, nv=nv1, nt=nt1, color=False)
    i = c.fresh_int('i', 0, nv1)
    with old:
        v = s.vert(i)
    c.ensure('every vertex of the other is added', m.vert(nv0 + i).eq(v))
    j = c.fresh_int('j', 0, nt1)
    with old:
        t = s.tri(j)
    c.ensure('every triangle of the other is added, shifted', And(*[a == b + nv0 for a, b in zip(m.tri(nt0 + j), t)]))
    c.ensure('and is live', Not(m.dead(nt0 + j)))


@contract(P, 'append a mesh', MESH)
def _(c):
    s = mesh_with(c, 's')
    m = mesh_with(c, 'm', live=False)
    old = Snap(c)
    c.call('Mesh::add_mesh', m.lv, [s.lv])
    appended(c, m, s, old)
    mesh_frame(c, s, old, nv=0, nt=0)


@contract(P, 'append a mesh to itself', MESH)
def _(c):
    m = mesh_with(c, 'm')
    old = Snap(c)
    c.call('Mesh::add_mesh', m.lv, [m.lv])
    appended(c, m, m, old)


def kernel(c, m):
    return c.val(ptr_target(c, c.val(m.lv).f['_pKernel']))


TF = ('_vertex1', '_vertex2', '_vertex3', '_unlinked')


def live_appended(c, m, s, old, kept=True):
    """vertices all added; triangles: those of s that are live, in order, shifted"""
    with old:
        nv0, nv1, nt1 = m.nv(), s.nv(), s.nt()
        k0 = kernel(c, m).f['_vTriangles']
        ks = kernel(c, s).f['_vTriangles']
    i0 = c.fresh_int('i', 0, nv1)
    with old:
        v = s.vert(i0)
    if not kept:
        k0, nv0 = Lit(ks.ety, []), I(0)
    c.ensure('every vertex of the source, removed triangles or not', m.vert(nv0 + i0).eq(v))
    c.ensure('vertex count', m.nv() == nv0 + nv1)

    def keep(t):
        with old:
            return Not(s.dead(t))

    def elem(t):
        with old:
            a = s.tri(t)
        return {'_vertex1': a[0] + nv0, '_vertex2': a[1] + nv0, '_vertex3': a[2] + nv0, '_unlinked': I(0)}
    filtered(c, 'triangles', kernel(c, m).f['_vTriangles'], k0, nt1, keep, elem, TF)


@contract(P, 'append a mesh that has removed triangles', MESH)
def _(c):
    s = mesh_with(c, 's', live=False)
    m = mesh_with(c, 'm', live=False)
    old = Snap(c)
    c.call('Mesh::add_mesh', m.lv, [s.lv])
    live_appended(c, m, s, old)
    mesh_frame(c, s, old, nv=0, nt=0)


@contract(P, 'append a mesh that has removed triangles to itself', MESH)
def _(c):
    m = mesh_with(c, 'm', live=False)
    old = Snap(c)
    c.call('Mesh::add_mesh', m.lv, [m.lv])
    live_appended(c, m, m, old)


for how in ('copy', 'assignment'):
    @contract(P, '%s of a mesh that has removed triangles' % how, MESH)
    def _(c, how=how):
        s = mesh_with(c, 's', live=False)
        if how == 'copy':
            old = Snap(c)
            m = Mesh_(c, lv=c.construct('Mesh', 'void (const Mesh &)', [s.lv]))
            old.st.store.update({r: v for r, v in c.ex.st.store.items() if r not in old.st.store})
        else:
            m = mesh_with(c, 'm', live=False)
            old = Snap(c)
            c.call_lv('Mesh::operator=', m.lv, [s.lv])
        live_appended(c, m, s, old, kept=False)
        c.ensure('colour', m.color() == s.color())
        mesh_frame(c, s, old, nv=0, nt=0)


# ------------------------------------------------------------------ smooth meshes
def sm(c, name):
    return c.new('SmoothMesh', name)


def patches(c, o):
    return c.val(o).f['_vst']


def nbp(c, o):
    return c.call('SmoothMesh::nb_triangles', o)


def pat(c, o, i):
    with quiet(c):
        return c.call('SmoothMesh::triangle', o, [i])


def sm_same(c, label, o, n0, src, old, n1):
    """patches n0.. of o are the n1 patches src had"""
    j = c.fresh_int('j', 0, n1)
    with old:
        a = pat(c, src, j)
    c.ensure(label, c.eq(pat(c, o, n0 + j), a))


@contract(P, 'copy and assignment of a smooth mesh', ALL)
def _(c):
    for how in ('copy', 'assignment', 'self'):
        s = sm(c, 's' + how)
        old = Snap(c)
        n = nbp(c, s)
        if how == 'copy':
            d = c.construct('SmoothMesh', 'void (const SmoothMesh &)', [s])
        else:
            d = sm(c, 'd' + how) if how == 'assignment' else s
            c.call_lv('SmoothMesh::operator=', d, [s])
        c.ensure(how + ': number of patches', nbp(c, d) == n)
        sm_same(c, how + ': every patch', d, I(0), s, old, n)
        c.ensure(how + ': source keeps its number of patches', nbp(c, s) == n)
        sm_same(c, how + ': source keeps its patches', s, I(0), s, old, n)
        if how != 'self':
            c.call('SmoothMesh::clear', d)
            c.ensure(how + ': later changes do not reach the source', nbp(c, s) == n)


@contract(P, 'append smooth meshes', ALL)
def _(c):
    for how in ('other', 'self'):
        d = sm(c, 'd' + how)
        s = sm(c, 's' + how) if how == 'other' else d
        old = Snap(c)
        n0, n1 = nbp(c, d), nbp(c, s)
        c.call('SmoothMesh::add_mesh', d, [s])
        c.ensure(how + ': number of patches', nbp(c, d) == n0 + n1)
        sm_same(c, how + ': earlier patches kept', d, I(0), d, old, n0)
        sm_same(c, how + ': patches added in order', d, n0, s, old, n1)
        if how == 'other':
            c.ensure('source keeps its number of patches', nbp(c, s) == n1)
            sm_same(c, 'source keeps its patches', s, I(0), s, old, n1)


# ------------------------------------------------------------------ faces and solids
def fmesh(c, f, cls='Face'):
    return Mesh_(c, lv=c.call_lv(cls + '::mesh', f))


def any_face(c, name, cls='Face'):
    f = c.construct(cls)
    m = fmesh(c, f, cls)
    any_kernel(c, name, ptr_target(c, c.val(m.lv).f['_pKernel']))
    RANGES[name + '.t._unlinked'] = (0, 0)
    if cls == 'Face':
        c.call('Face::set_color', f, [c.int(name + '.facecolor')])
    c.call('Mesh::set_color', m.lv, [c.int(name + '.color')])
    return f


for how in ('copy', 'assignment', 'self assignment'):
    @contract(P, how + ' of a face', ALL)
    def _(c, how=how):
        s = any_face(c, 's')
        old = Snap(c)
        col = c.val(s).f['_iColor']
        if how == 'copy':
            d = c.construct('Face', 'void (const Face &)', [s])
        else:
            d = any_face(c, 'd') if how == 'assignment' else s
            c.call_lv('Face::operator=', d, [s])
        if d is s:
            mesh_frame(c, fmesh(c, s), old, nv=0, nt=0)
        else:
            same_mesh(c, how, fmesh(c, d), fmesh(c, s))
            mesh_frame(c, fmesh(c, s), old, nv=0, nt=0)
            independent(c, fmesh(c, d), fmesh(c, s))
        c.ensure('face colour', c.val(d).f['_iColor'] == col)

    @contract(P, how + ' of a solid', ALL)
    def _(c, how=how):
        c.bounded = 'two faces, with their meshes'
        s = any_face(c, 's', 'Solid')
        faces = []
        for k in range(2):
            faces.append(any_face(c, 'f%d' % k))
            c.call('Solid::add_face', s, [faces[-1]])
        old = Snap(c)
        if how == 'copy':
            d = c.construct('Solid', 'void (const Solid &)', [s])
        else:
            d = any_face(c, 'd', 'Solid') if how == 'assignment' else s
            c.call_lv('Solid::operator=', d, [s])
        if d is s:
            mesh_frame(c, fmesh(c, s, 'Solid'), old, nv=0, nt=0)
        else:
            same_mesh(c, how, fmesh(c, d, 'Solid'), fmesh(c, s, 'Solid'))
            mesh_frame(c, fmesh(c, s, 'Solid'), old, nv=0, nt=0)
        c.ensure('number of faces', c.val(d).f['_faces'].len() == 2)
        for k in range(2):
            fd = d.fld('_faces').idx(I(k))
            same_mesh(c, 'face %d' % k, fmesh(c, fd), fmesh(c, faces[k]))
            c.ensure('colour of face %d' % k, c.val(fd).f['_iColor'] == c.val(faces[k]).f['_iColor'])
        if d is not s:
            independent(c, fmesh(c, d.fld('_faces').idx(I(0))), fmesh(c, faces[0]))


# ------------------------------------------------------------------ a solid with any number of faces, each copied by the contract above
def abstract_faces(c, name):
    """faces seen as what they show (content) and where they keep it (storage)"""
    cf, sf = [z3.Function(name + x, z3.IntSort(), z3.IntSort()) for x in ('.content', '.storage')]
    n = c.int(name + '.faces', 0)
    c.assume(n < 2 ** 30)
    ty = parse_type('Face')
    return Base(ty, n, lambda i: Struct('Face', {'#content': cf(i if z3.is_expr(i) else I(i)), '#storage': sf(i if z3.is_expr(i) else I(i))})), n


for how in ('copy', 'assignment', 'self assignment'):
    @contract(P, how + ' of a solid with any number of faces', ALL)
    def _(c, how=how):
        ex = c.ex
        NEW = z3.Function('storage_of_copy', z3.IntSort(), z3.IntSort())
        ex.copy_contracts['Face'] = lambda v: Struct('Face', {'#content': v.f['#content'], '#storage': NEW(v.f['#storage'])})
        ex.used_contracts.add('Face::Face(const Face &), Face::operator= (same content, storage of its own: copy of a face); std::vector copies element by element')

        def solid(name):
            f = any_face(c, name, 'Solid')
            v = c.val(f)
            faces, n = abstract_faces(c, name)
            ex.wr(f, Struct(v.cls, dict(v.f, _faces=faces)))
            return f, faces, n
        s, faces, n = solid('s')
        old = Snap(c)
        if how == 'copy':
            d = c.construct('Solid', 'void (const Solid &)', [s])
        else:
            d = solid('d')[0] if how == 'assignment' else s
            c.call_lv('Solid::operator=', d, [s])
        if d is not s:
            same_mesh(c, how, fmesh(c, d, 'Solid'), fmesh(c, s, 'Solid'))
        mesh_frame(c, fmesh(c, s, 'Solid'), old, nv=0, nt=0)
        out = c.val(d).f['_faces']
        c.ensure('number of faces', out.len() == n)
        k = c.fresh_int('k', 0, n)
        c.ensure('each face as it was, in order', c.of(k, c.at(out, k).f['#content'] == c.at(faces, k).f['#content']))
        if d is not s:
            c.assume(NEW(c.at(faces, k).f['#storage']) != c.at(faces, k).f['#storage'])
            c.ensure('in storage of its own', c.of(k, c.at(out, k).f['#storage'] != c.at(faces, k).f['#storage']))
            now = c.val(s).f['_faces']
            c.ensure('the faces of the source stay', And(now.len() == n, c.of(k, And(*[c.at(now, k).f[x] == c.at(faces, k).f[x] for x in ('#content', '#storage')]))))


@contract(P, 'adding a face to a solid', ALL)
def _(c):
    ex = c.ex
    NEW = z3.Function('storage_of_copy', z3.IntSort(), z3.IntSort())
    ex.copy_contracts['Face'] = lambda v: Struct('Face', {'#content': v.f['#content'], '#storage': NEW(v.f['#storage'])})
    ex.used_contracts.add('Face::Face(const Face &) (same content, storage of its own: copy of a face)')
    s = any_face(c, 's', 'Solid')
    v = c.val(s)
    faces, n = abstract_faces(c, 's')
    ex.wr(s, Struct(v.cls, dict(v.f, _faces=faces)))
    f = c.obj(Struct('Face', {'#content': c.int('content'), '#storage': c.int('storage')}), 'f')
    c.call('Solid::add_face', s, [f])
    out = c.val(s).f['_faces']
    c.ensure('one more', out.len() == n + 1)
    c.ensure('the new one last, copied', And(c.at(out, n).f['#content'] == z3.Int('content'), c.at(out, n).f['#storage'] == NEW(z3.Int('storage'))))
    k = c.fresh_int('k', 0, n)
    c.ensure('those before stay', c.of(k, And(*[c.at(out, k).f[x] == c.at(faces, k).f[x] for x in ('#content', '#storage')])))
