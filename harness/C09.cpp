//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp QuadBezierTriangle.cpp SmoothMesh.cpp Face.cpp Solid.cpp
#define private public
#define protected public
#include "Face.h"
#include "Solid.h"
#include "SmoothMesh.h"
#undef private
#undef protected
#include "meshref.h"
// what a copy shows: all vertices, the live triangles in order
static RefMesh live(const RefMesh& r) { RefMesh o = r; o.t.clear(); for (auto& t : r.t) if (!t.dead) o.t.push_back(t); return o; }
#define COPYOF(m, ref, ...) do { std::string _d = diff(live(snap(m)), live(ref)); if (!_d.empty()) H::fail("harness", __LINE__, H::fmt(__VA_ARGS__) + ": " + _d); } while (0)
static void change(H::In& in, Mesh& m) {
	m.add_vertex(gpt(in, "w")); m.set_vertex(in.i("wi", 0, m.nb_vertices() - 1), gpt(in, "w")); m.add_triangle(0, 0, 0);
	m.unlink_triangle(in.i("wj", 0, m.nb_triangles() - 1)); m.set_color(in.i("wc", 0, 99)); if (in.one_in("clr", 5)) m.clear();
}
CASE(mesh) {
	Mesh a, b; randmesh(in, a, 10, 12); randmesh(in, b, 10, 12); RefMesh ra = snap(a), rb = snap(b);
	int k = in.i("kind", 0, 4);
	if (k == 0) { Mesh c(a); COPYOF(c, ra, "copy"); SAMEMESH(a, ra, "source of a copy"); change(in, c); SAMEMESH(a, ra, "source after the copy changed"); Mesh d(a); RefMesh rd = snap(d); change(in, a); SAMEMESH(d, rd, "copy after the source changed"); }
	else if (k == 1) { b = a; COPYOF(b, ra, "assignment"); SAMEMESH(a, ra, "source of an assignment"); RefMesh r = snap(b); change(in, a); SAMEMESH(b, r, "assigned mesh after the source changed"); }
	else if (k == 2) { Mesh& x = a; a = x; COPYOF(a, ra, "self assignment"); }
	else {
		bool self = k == 4; if (self) rb = ra; int nv = (int)ra.v.size();
		a.add_mesh(self ? a : b); RefMesh now = snap(a), e = ra; for (auto& p : rb.v) e.v.push_back(p);
		CHECK(now.v.size() == e.v.size(), "append: %zu vertices, expected %zu", now.v.size(), e.v.size());
		for (auto t : rb.t) if (!t.dead) e.t.push_back({ t.a + nv, t.b + nv, t.c + nv, false });
		std::string d = diff(now, e, false); CHECK(d.empty(), "append%s: %s", self ? " to itself" : "", d.c_str());
		if (!self) SAMEMESH(b, rb, "source of an append");
	}
}
static QuadBezierTriangle rq(H::In& in) {
	QuadBezierTriangle q; q.set_points(gpt(in, "a"), gpt(in, "b"), gpt(in, "c")); q.set_control_points(gpt(in, "d"), gpt(in, "e"), gpt(in, "f"));
	double w[6]; for (double& x : w) x = in.num("w", .5, 3); q.set_weights(w[0], w[1], w[2], w[3], w[4], w[5]); return q;
}
static bool eq(const QuadBezierTriangle& a, const QuadBezierTriangle& b) {
	return same(a._P1, b._P1) && same(a._P2, b._P2) && same(a._P3, b._P3) && same(a._controlP1P2, b._controlP1P2) && same(a._controlP1P3, b._controlP1P3) && same(a._controlP2P3, b._controlP2P3)
		&& a._wP1 == b._wP1 && a._wP2 == b._wP2 && a._wP3 == b._wP3 && a._wP1P2 == b._wP1P2 && a._wP1P3 == b._wP1P3 && a._wP2P3 == b._wP2P3;
}
typedef std::vector<QuadBezierTriangle> VQ;
static void smsame(const SmoothMesh& s, const VQ& e, const char* what) { CHECK(s.nb_triangles() == (int)e.size(), "%s: %d patches, expected %zu", what, s.nb_triangles(), e.size()); for (size_t i = 0; i < e.size(); i++) CHECK(eq(s.triangle((int)i), e[i]), "%s: patch %zu", what, i); }
CASE(smooth) {
	SmoothMesh a, b; VQ ra, rb; int n = in.small("n", 0, 6), m = in.small("m", 0, 6);
	for (int i = 0; i < n; i++) { ra.push_back(rq(in)); a.add_triangle(ra.back()); } for (int i = 0; i < m; i++) { rb.push_back(rq(in)); b.add_triangle(rb.back()); }
	int k = in.i("kind", 0, 4);
	if (k == 0) { SmoothMesh c(a); smsame(c, ra, "copy"); c.add_triangle(rq(in)); smsame(a, ra, "source after the copy changed"); }
	else if (k == 1) { b = a; smsame(b, ra, "assignment"); smsame(a, ra, "source"); a.clear(); smsame(b, ra, "assigned after the source changed"); }
	else if (k == 2) { SmoothMesh& x = a; a = x; smsame(a, ra, "self assignment"); }
	else if (k == 3) { a.add_mesh(b); for (auto& q : rb) ra.push_back(q); smsame(a, ra, "append"); smsame(b, rb, "source of an append"); }
	else { a.add_mesh(a); VQ d = ra; d.insert(d.end(), ra.begin(), ra.end()); smsame(a, d, "append to itself"); }
}
CASE(face_and_solid) {
	Face f, g; randmesh(in, f.mesh(), 8, 8); randmesh(in, g.mesh(), 8, 8); f.set_color(in.i("fc", 0, 99)); g.set_color(in.i("gc", 100, 199));
	RefMesh rf = snap(f.mesh()); int cf = f._iColor; int k = in.i("kind", 0, 6);
	if (k == 0) { Face c(f); COPYOF(c.mesh(), rf, "copy of a face"); CHECK(c._iColor == cf, "colour of the copy"); change(in, c.mesh()); SAMEMESH(f.mesh(), rf, "face after its copy changed"); return; }
	if (k == 1) { g = f; COPYOF(g.mesh(), rf, "assigned face"); CHECK(g._iColor == cf, "colour of the assigned face"); change(in, g.mesh()); SAMEMESH(f.mesh(), rf, "face after the assigned one changed"); return; }
	if (k == 2) { Face& x = f; f = x; COPYOF(f.mesh(), rf, "face assigned to itself"); CHECK(f._iColor == cf, "colour"); return; }
	Solid s, t; randmesh(in, s.mesh(), 8, 8); randmesh(in, t.mesh(), 8, 8); int n = in.i("faces", 0, 3);
	for (int i = 0; i < n; i++) { f.set_color(cf + i); s.add_face(f); } if (in.b("tf")) t.add_face(g);
	RefMesh rs = snap(s.mesh());
	Solid* r = &t; Solid* fresh = nullptr; const char* what = "assigned solid";
	if (k == 3) { r = fresh = new Solid(s); what = "copy of a solid"; } else if (k == 4) { Solid& x = s; s = x; r = &s; what = "solid assigned to itself"; } else t = s;
	COPYOF(r->mesh(), rs, "%s", what); CHECK((int)r->_faces.size() == n, "%s: %zu faces, expected %d", what, r->_faces.size(), n);
	for (int i = 0; i < n; i++) { COPYOF(r->_faces[i].mesh(), rf, "%s: face %d", what, i); CHECK(r->_faces[i]._iColor == cf + i, "%s: colour of face %d", what, i); }
	if (r != &s) { change(in, r->mesh()); SAMEMESH(s.mesh(), rs, "solid after the other changed"); if (n) { RefMesh b = snap(s._faces[0].mesh()); change(in, r->_faces[0].mesh()); SAMEMESH(s._faces[0].mesh(), b, "face of the solid after the other's changed"); } }
	delete fresh;
}
