//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp
#include "meshref.h"
typedef std::map<std::pair<int, int>, int> B;
static B poly(const std::vector<int>& v) { B e; for (size_t i = 0; i < v.size(); i++) { int a = v[i], b = v[(i + 1) % v.size()], s = 1; if (a == b) continue; if (a > b) { std::swap(a, b); s = -1; } if ((e[{a, b}] += s) == 0) e.erase({ a, b }); } return e; }
static std::vector<int> from(const RefMesh& r, size_t n) { std::vector<int> o; for (size_t i = n; i < r.t.size(); i++) o.push_back((int)i); return o; }
static B neg(B b) { for (auto& x : b) x.second = -x.second; return b; }
// everything that was there is still there, except the triangles named, which are removed
static void frame(const RefMesh& now, RefMesh old, std::vector<int> gone, size_t nv, size_t nt, const char* what) {
	CHECK(now.v.size() == old.v.size() + nv, "%s: %zu vertices, expected %zu", what, now.v.size(), old.v.size() + nv);
	CHECK(now.t.size() == old.t.size() + nt, "%s: %zu triangles, expected %zu", what, now.t.size(), old.t.size() + nt);
	for (int g : gone) old.t[g].dead = true;
	RefMesh cut = now; cut.v.resize(old.v.size()); cut.t.resize(old.t.size());
	std::string d = diff(cut, old); CHECK(d.empty(), "%s: %s", what, d.c_str());
	for (size_t i = old.t.size(); i < now.t.size(); i++) { auto& t = now.t[i]; CHECK(!t.dead, "%s: new triangle %zu is not live", what, i); }
}
static Point3 vec_area(const RefMesh& r, const std::vector<int>& l) { Point3 s(0, 0, 0); for (int i : l) { auto& t = r.t[i]; s = add(s, mul(crs(sub(r.v[t.b], r.v[t.a]), sub(r.v[t.c], r.v[t.a])), .5)); } return s; }
static double tot_area(const RefMesh& r, const std::vector<int>& l) { double s = 0; for (int i : l) { auto& t = r.t[i]; s += .5 * len(crs(sub(r.v[t.b], r.v[t.a]), sub(r.v[t.c], r.v[t.a]))); } return s; }
static std::vector<int> distinct(H::In& in, int n, int nv) { std::vector<int> o; for (int i = 0; i < n; i++) { int a = in.i("id", 0, nv - 1); while (std::find(o.begin(), o.end(), a) != o.end()) a = (a + 1) % nv; o.push_back(a); } return o; }
static void base(H::In& in, Mesh& m) { randmesh(in, m, 8, 8, true); while (m.nb_vertices() < 6) m.add_vertex(gpt(in, "v")); }

CASE(polygons) {
	Mesh m; base(in, m); RefMesh o = snap(m); int k = in.i("kind", 0, 3);
	if (k < 2) {
		auto v = distinct(in, 4 + k, m.nb_vertices());
		if (k == 0) m.add_quad(v[0], v[1], v[2], v[3]); else m.add_pentagon(v[0], v[1], v[2], v[3], v[4]);
		RefMesh r = snap(m); frame(r, o, {}, 0, 2 + k, "polygon"); auto l = from(r, o.t.size());
		CHECK(boundary(r, &l) == poly(v), "boundary of the %d-gon is not the polygon in the given order", 4 + k);
		for (int i : l) for (int x : { r.t[i].a, r.t[i].b, r.t[i].c }) CHECK(std::count(v.begin(), v.end(), x), "vertex %d is not one of the polygon's", x);
	} else {
		Point3 p[4]; for (auto& x : p) x = gpt(in, "p", -3, 3); bool opt = k == 2;
		m.add_quad(p[0], p[1], p[2], p[3], opt);
		RefMesh r = snap(m); frame(r, o, {}, 4, 2, "quad from points"); auto l = from(r, o.t.size());
		int n = (int)o.v.size(); for (int i = 0; i < 4; i++) CHECK(same(r.v[n + i], p[i]), "corner %d", i);
		CHECK(boundary(r, &l) == poly({ n, n + 1, n + 2, n + 3 }), "boundary of the quad is not the quad in the given order");
		for (int i : l) for (int x : { r.t[i].a, r.t[i].b, r.t[i].c }) CHECK(x >= n, "vertex %d is not one of the quad's", x);
	}
}
CASE(split_and_flip) {
	Mesh m; base(in, m); if (!m.nb_triangles()) SKIP();
	int j = in.i("j", 0, m.nb_triangles() - 1); RefMesh o = snap(m); bool dead = o.t[j].dead; o.t[j].dead = false; std::vector<int> lj{ j }; B b0 = boundary(o, &lj); Point3 a0 = vec_area(o, lj); o.t[j].dead = dead;
	int k = in.i("kind", 0, 2);
	if (k == 0) {
		m.flip_triangle(j); RefMesh r = snap(m); frame(r, o, { j }, 0, 1, "flip"); auto l = from(r, o.t.size()); CHECK(boundary(r, &l) == neg(b0), "flip of triangle %d", j); NEARP(vec_area(r, l), mul(a0, -1), "area after flip");
		return;
	}
	int s; size_t nv = 0; Point3 p = gpt(in, "p");
	if (k == 1) { do s = in.i("s", 0, m.nb_vertices() - 1); while (s == o.t[j].a || s == o.t[j].b || s == o.t[j].c); m.split_triangle_with_vertex(j, s); }
	else { s = m.nb_vertices(); nv = 1; m.split_triangle_with_vertex(j, p); }
	RefMesh r = snap(m); frame(r, o, { j }, nv, 3, "split"); if (nv) CHECK(same(r.v[s], p), "new vertex is not the point");
	auto l = from(r, o.t.size()); CHECK(boundary(r, &l) == b0, "split of triangle %d at vertex %d changes the boundary", j, s);
	NEARP(vec_area(r, l), a0, "oriented area after the split");
	for (int i : l) CHECK(r.t[i].a == s || r.t[i].b == s || r.t[i].c == s, "a new triangle does not meet the split vertex");
}
CASE(split_edge) {
	Mesh m; base(in, m); auto v = distinct(in, 5, m.nb_vertices()); int a = v[0], b = v[1], p = v[2], q = v[3], s = v[4];
	if (in.one_in("same apex", 8)) q = p;
	int r1 = in.i("r1", 0, 2), r2 = in.i("r2", 0, 2); int t1[3] = { a, b, p }, t2[3] = { b, a, q };
	bool inside = in.b("inside"); double w = in.uni("w", .1, .9);
	if (inside) { Point3 A, Bp; m.get_vertex(a, A); m.get_vertex(b, Bp); m.set_vertex(s, add(mul(A, w), mul(Bp, 1 - w))); }
	bool first = in.b("order"); int j1, j2;
	auto A1 = [&] { return m.add_triangle(t1[r1], t1[(r1 + 1) % 3], t1[(r1 + 2) % 3]); }; auto A2 = [&] { return m.add_triangle(t2[r2], t2[(r2 + 1) % 3], t2[(r2 + 2) % 3]); };
	if (first) { j1 = A1(); j2 = A2(); } else { j2 = A2(); j1 = A1(); }
	RefMesh o = snap(m); std::vector<int> lj{ j1, j2 }; B b0 = boundary(o, &lj); Point3 a0 = vec_area(o, lj); double ta = tot_area(o, lj);
	m.split_edge_with_vertex(j1, j2, a, b, s);
	RefMesh r = snap(m); frame(r, o, { j1, j2 }, 0, 4, "edge split"); auto l = from(r, o.t.size());
	CHECK(boundary(r, &l) == b0, "edge split (cyclic orders %d,%d) changes the boundary", r1, r2);
	NEARP(vec_area(r, l), a0, "oriented area after the edge split");
	if (inside) CLOSE(tot_area(r, l), ta, "area after the edge split");
	for (int i : l) { auto& t = r.t[i]; CHECK(t.a == s || t.b == s || t.c == s, "a new triangle does not meet the split vertex"); CHECK(t.a != t.b && t.b != t.c && t.a != t.c, "degenerate new triangle"); }
}
