import z3
from vcg.contract import contract, V, Case
from vcg.values import *
from vcg.symex import realv, SQRT, SIN, COS, F32, ACOS, ATAN2

GEO = ['Geometry.cpp']


def pt(c, name):
    """arbitrary Point3 (fresh object) and its spec view"""
    o = c.new('Point3', name)
    return o, V.of(c.val(o))


def mkpt(c, x, y, z, hint='p'):
    from vcg.values import Struct
    v = c.sym('Point3', fresh_name(hint))
    f = dict(v.f)
    f['_x'], f['_y'], f['_z'] = realv(x), realv(y), realv(z)
    return Struct(v.cls, f)


def tri(c, name):
    """arbitrary Triangle3 object, spec views of its corners through the public accessors"""
    o = c.new('Triangle3', name)
    ps = [V.of(c.call('Triangle3::p%d' % i, o)) for i in (1, 2, 3)]
    return o, ps


def seg(c, name):
    o = c.new('Segment3', name)
    return o, [V.of(c.call('Segment3::p%d' % i, o)) for i in (1, 2)]


def det(a, b, c):
    return a.cross(b).dot(c)


def R(x):
    return z3.RealVal(x)


def Not(x):
    return z3.Not(x)


And, Or, Implies, If, ForAll = z3.And, z3.Or, z3.Implies, z3.If, z3.ForAll

from vcg.loops import val_terms as _vt


def val_terms(v, ex=None):
    return _vt(v, ex)



def mktri(c, *ps):
    return c.construct('Triangle3', 'void (const Point3 &, const Point3 &, const Point3 &)', [c.obj(mkpt(c, *p)) for p in ps])


def mkseg(c, a, b):
    return c.construct('Segment3', 'void (const Point3 &, const Point3 &)', [c.obj(mkpt(c, *a)), c.obj(mkpt(c, *b))])


def pure_bool(c, qname, uf, params=None, out=()):
    """callee contract: a deterministic function of the object and its inputs that returns bool and may write
    only the arguments listed in `out`"""
    f = c.fn(qname, params)

    def h(ex, this, args, fn):
        leaves = []
        for i, a in enumerate([this] + list(args)):
            if i - 1 in out:
                continue
            leaves += [realv(t) if t.sort() == z3.IntSort() else t for t in val_terms(ex.rd(a) if isinstance(a, LV) else a)]
        for i in out:
            old = ex.rd(args[i])
            nv = ex.symval(parse_type(old.cls if isinstance(old, Struct) else 'double'), fresh_name('out'))
            ex.wr(args[i], nv)
        F = z3.Function(uf, *([t.sort() for t in leaves] + [z3.BoolSort()]))
        return F(*leaves)
    c.ex.handlers[f.mangled] = h

# ------------------------------------------------------------------ meshes
from vcg.symex import RANGES, State
MESH = ['Geometry.cpp', 'Mesh.cpp', 'MeshKernel.cpp', 'MeshKernelLinkedTriangles.cpp', 'MeshKernelTIN.cpp', 'MeshKernelHalfEdge.cpp', 'Transform.cpp']


def ptr_target(c, p):
    if isinstance(p, Ptr) and p.lv is not None:
        return p.lv
    raise Unsupported('pointer %r' % (p,))


def any_kernel(c, name, k):
    """fill kernel object k (LinkedTriangles or TIN) with an arbitrary valid history"""
    s = c.val(k)
    f = dict(s.f)
    vv = c.ex.symval(parse_type('std::vector<%s>' % ('VertexTIN' if 'TIN' in s.cls else 'Point3')), name + '.v')
    tt = c.ex.symval(parse_type('std::vector<%s>' % ('TriangleTIN' if 'TIN' in s.cls else 'TriangleLT')), name + '.t')
    f['_vVertices'], f['_vTriangles'] = vv, tt
    c.ex.wr(k, Struct(s.cls, f))
    nv, nt = vv.len(), tt.len()
    c.assume(nv >= 0)
    c.assume(nt >= 0)
    c.assume(nv < 2 ** 30)
    c.assume(nt < 2 ** 30)
    ok = lambda a: And(a[0] >= 0, a[0] < nt)
    for n in ('_vertex1', '_vertex2', '_vertex3'):
        RANGES[name + '.t.' + n] = (0, nv - 1, ok)
    for n in ('_triangle1', '_triangle2', '_triangle3'):
        RANGES[name + '.t.' + n] = (-1, -1)
    RANGES[name + '.t._unlinked'] = (-1, 0)
    RANGES[name + '.t._reserved'] = (0, 0)
    return k


class Mesh_:
    """an arbitrary mesh and its abstract view through the public accessors"""

    def __init__(self, c, name=None, lv=None, fill=True):
        self.c = c
        self.lv = lv if lv is not None else c.construct('Mesh')
        if fill and lv is None:
            k = ptr_target(c, c.val(self.lv).f['_pKernel'])
            any_kernel(c, name, k)
            s = c.val(self.lv)
            f = dict(s.f)
            f['_iColor'] = c.ex.symval(parse_type('int'), name + '.color')
            c.ex.wr(self.lv, Struct(s.cls, f))

    def nv(self):
        return self.c.call('Mesh::nb_vertices', self.lv)

    def nt(self):
        return self.c.call('Mesh::nb_triangles', self.lv)

    def color(self):
        return self.c.call('Mesh::get_color', self.lv)

    def vert(self, i):
        o = self.c.new('Point3', fresh_name('gv'))
        with quiet(self.c):
            self.c.call('Mesh::get_vertex', self.lv, [i if is_term(i) else I(i), o])
        return V.of(self.c.val(o))

    def tri(self, i):
        o = [self.c.obj(I(0), 'gt') for _ in range(3)]
        with quiet(self.c):
            self.c.call('Mesh::get_triangle_vertices', self.lv, [i if is_term(i) else I(i)] + o, params=['int', 'int &', 'int &', 'int &'])
        return tuple(self.c.val(x) for x in o)

    def dead(self, i):
        with quiet(self.c):
            return self.c.call('Mesh::is_triangle_unlinked', self.lv, [i if is_term(i) else I(i)])


def is_term(x):
    return isinstance(x, z3.ExprRef)


class quiet:
    """observation: no obligations are generated for the spec's own reads; their asserts are not assumed either"""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.q = self.c.ex.quiet
        self.c.ex.quiet = True
        self.pc = list(self.c.ex.st.pc)

    def __exit__(self, *a):
        self.c.ex.quiet = self.q
        if self.c.ex.st is not None:
            self.c.ex.st.pc = self.pc
        return False


class Snap:
    """state of the heap at one moment, to read abstract views of the past"""

    def __init__(self, c):
        self.c = c
        self.st = c.ex.st.copy()

    def __enter__(self):
        self.save = self.c.ex.st
        self.c.ex.st = State(dict(self.st.store), list(self.save.pc))

    def __exit__(self, *a):
        self.c.ex.st = self.save
        return False


def mesh_frame(c, m, old, nv=None, nt=None, verts=True, tris=True, but_tri=None, but_vert=None, color=True):
    """everything that existed in `old` is still there, unchanged (except the listed triangles' marks)"""
    with old:
        nv0, nt0 = m.nv(), m.nt()
        col0 = m.color()
    if nv is not None:
        c.ensure('vertex count', m.nv() == nv0 + nv)
    if nt is not None:
        c.ensure('triangle count', m.nt() == nt0 + nt)
    if color:
        c.ensure('colour kept', m.color() == col0)
    if verts:
        i = c.fresh_int('i', 0, nv0)
        if but_vert is not None:
            c.assume(And(*[i != b for b in but_vert]))
        with old:
            a = m.vert(i)
        c.ensure('every earlier vertex keeps its place', m.vert(i).eq(a))
    if tris:
        j = c.fresh_int('j', 0, nt0)
        with old:
            a, d = m.tri(j), m.dead(j)
        b = m.tri(j)
        c.ensure('every earlier triangle keeps its vertices', And(*[x == y for x, y in zip(a, b)]))
        cond = And(*[j != x for x in (but_tri or [])]) if but_tri else z3.BoolVal(True)
        c.ensure('no other triangle is removed or revived', Implies(cond, m.dead(j) == d))
        for x in (but_tri or []):
            c.ensure('the named triangle is removed', m.dead(x))


# ------------------------------------------------------------------ sequences built by a filtering loop
from vcg.values import Comp, seglen, segs_get, Base


def filtered(c, label, new, prev, n, keep, elem, fields):
    """`new` is `prev` followed by, for t = 0..n-1 in order, elem(t) when keep(t) and nothing otherwise"""
    ex = c.ex
    if not isinstance(new, Comp):
        raise Unsupported('sequence not built by one loop')
    c.ensure(label + ': what was there stays', c.eq(new.prev, prev))
    c.ensure(label + ': every element of the source considered', new.n == n)
    t = c.fresh_int('t', 0, n)
    segs = new.at(t)
    c.ensure(label + ': kept elements appear once, the others not at all', seglen(segs) == If(keep(t), I(1), I(0)))
    with c.under(keep(t)):
        v = segs_get(new.ety, segs, I(0), ex)
        want = elem(t)
        for k in fields:
            c.ensure(label + ': %s of a kept element' % k, c.eq(v.f[k] if isinstance(v, Struct) else v, want[k]))


# ------------------------------------------------------------------ ghost code in callee contracts
from vcg.loops import _walk_loops  # noqa


def _vardecls(n, name, out):
    if isinstance(n, dict):
        if n.get('kind') in ('VarDecl', 'ParmVarDecl') and n.get('name') == name:
            out.append(n['id'])
        for x in n.get('inner', []) or []:
            _vardecls(x, name, out)
    return out


def frame_var(c, qname, name):
    """value of a program variable of the innermost active call of `qname` (for ghost code only)"""
    for fr in reversed(c.ex.frames):
        if fr.fn.qname == qname:
            ids = [p['id'] for p in fr.fn.params if p.get('name') == name] + _vardecls(fr.fn.body, name, [])
            for i in reversed(ids):
                if (fr.tu, i) in fr.env:
                    x = fr.env[(fr.tu, i)]
                    return c.ex.rd(x) if isinstance(x, LV) else x
    raise Unsupported('ghost code names variable %s' % name)
