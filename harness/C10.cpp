//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp MeshUtil.cpp Image.cpp ImageUtil.cpp ImageIoBmp.cpp
#include "meshref.h"
#include "MeshUtil.h"
static double d2(const Point3& a, const Point3& b) { Point3 d = sub(a, b); return dot(d, d); }
// points on a fine lattice: chains of near points, exact coincidences, distances exactly at the tolerance
static void cloud(H::In& in, Mesh& m) {
	int nv = in.i("nv", 0, 12), kind = in.i("cloud", 0, 3);
	for (int i = 0; i < nv; i++) {
		Point3 p;
		if (kind == 0) p = gip(in, "p", -1, 1);
		else if (kind == 1) p = Point3(in.i("c", 0, 8) * 0.25, 0, 0);
		else if (kind == 2) p = Point3(in.i("c", 0, 6) * 0.5, in.i("d", 0, 2) * 0.5, 0);
		else p = gpt(in, "p", -1.5, 1.5);
		m.add_vertex(p);
	}
	int nt = nv ? in.i("nt", 0, 10) : 0;
	for (int i = 0; i < nt; i++) { int a = in.i("a", 0, nv - 1), b = in.i("b", 0, nv - 1), c = in.i("c", 0, nv - 1); m.add_triangle(a, b, c); }
	for (int i = 0; i < nt; i++) if (in.one_in("rm", 4)) m.unlink_triangle(i);
	m.set_color(in.i("color", -1, 1000));
}
static double tolerance(H::In& in) { static const double T[] = { 0, .1, .25, .5, .6, 1, 1.5, 3 }; return T[in.i("tol", 0, 7)]; }
CASE(merge) {
	Mesh m; cloud(in, m); RefMesh r = snap(m); double t = tolerance(in);
	MeshUtil::merge_vertices(m, t); RefMesh n = snap(m);
	for (size_t i = 0; i < n.v.size(); i++) {
		bool known = false; for (auto& p : r.v) known |= same(p, n.v[i]);
		CHECK(known, "vertex %zu of the result is not one of the mesh", i);
		for (size_t j = 0; j < i; j++) CHECK(d2(n.v[i], n.v[j]) >= t * t, "kept vertices %zu and %zu are nearer than %g", j, i, t);
	}
	for (size_t i = 0; i < r.v.size(); i++) {
		bool ok = false; for (auto& p : n.v) ok |= same(p, r.v[i]) || d2(p, r.v[i]) < t * t;
		CHECK(ok, "vertex %zu has no representative within %g", i, t);
	}
	std::vector<RefMesh::T> live; for (auto& x : r.t) if (!x.dead) live.push_back(x);
	CHECK(n.t.size() == live.size(), "%zu triangles, expected %zu", n.t.size(), live.size());
	for (size_t i = 0; i < live.size(); i++) {
		CHECK(!n.t[i].dead, "triangle %zu was removed", i);
		int a[3] = { live[i].a, live[i].b, live[i].c }, b[3] = { n.t[i].a, n.t[i].b, n.t[i].c };
		for (int k = 0; k < 3; k++) {
			CHECK(b[k] >= 0 && b[k] < (int)n.v.size(), "triangle %zu refers to vertex %d of %zu", i, b[k], n.v.size());
			const Point3 &p = r.v[a[k]], &q = n.v[b[k]];
			CHECK(same(p, q) || d2(p, q) < t * t, "corner %d of triangle %zu moved by %g (tolerance %g)", k, i, std::sqrt(d2(p, q)), t);
		}
	}
}
CASE(empty_triangles) {
	Mesh m; cloud(in, m); RefMesh r = snap(m); double t = tolerance(in);
	MeshUtil::remove_empty_triangles(m, t);
	for (auto& x : r.t) if (d2(r.v[x.a], r.v[x.b]) < t * t || d2(r.v[x.b], r.v[x.c]) < t * t || d2(r.v[x.c], r.v[x.a]) < t * t) x.dead = true;
	SAMEMESH(m, r, "after removing triangles with an edge shorter than %g", t);
}
