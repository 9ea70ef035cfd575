//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp MeshMeasurements.cpp
#define H_TOL 1e-10
#include "meshref.h"
#include "MeshMeasurements.h"
CASE(measure) {
	Mesh m; bool dist = in.b("distinct"), whole = in.b("integer"); randmesh(in, m, 8, 10, dist, whole);
	double k = 1; if (whole && in.b("scaled")) { k = std::ldexp(1., in.i("scale", -40, 20)); for (int i = 0; i < m.nb_vertices(); i++) { Point3 p; m.get_vertex(i, p); m.set_vertex(i, mul(p, k)); } } // exact: every sum and product stays an integer times a power of two
	auto measured = [&](const char* when) {
	RefMesh r = snap(m);
	double area = 0, vol = 0, scale = 0; bool degenerate = false;
	for (auto& t : r.t) {
		if (t.dead) continue;
		Point3 a = r.v[t.a], b = r.v[t.b], c = r.v[t.c], n = crs(sub(b, a), sub(c, a));
		double s = len(n) / 2; area += s; vol += dot(a, crs(b, c)) / 6; scale += len(a) * len(b) * len(c);
		if (t.a == t.b || t.b == t.c || t.a == t.c || same(a, b) || same(b, c) || same(a, c)) degenerate = true;
		else if (whole) { if (s == 0) degenerate = true; }
		else if (s < 1e-9) return;
	}
	CLOSE(MeshMeasurements::surface(m), area, when);
	double v = MeshMeasurements::volume(m);
	CHECK(std::fabs(v - vol) <= 1e-9 * (scale + 1), "volume %.12g, expected %.12g %s", v, vol, when);
	CHECK(MeshMeasurements::has_no_degenerated_triangles(m) == !degenerate, "reported %s degenerate triangles", degenerate ? "free of" : "to have");
	if (std::fabs(vol) > 1e-9 * (scale + 1)) CHECK(MeshMeasurements::is_oriented_outside(m) == (vol > 0), "volume %g reported as facing %s", vol, vol > 0 ? "inward" : "outward");
	SAMEMESH(m, r, "measuring");
	};
	measured("area");
	for (int e = in.small("edits", 0, 3); e > 0; e--) { // measured again after changes that keep the numbers of vertices and triangles
		if (m.nb_vertices() && in.b("move")) m.set_vertex(in.i("which", 0, m.nb_vertices() - 1), whole ? mul(Point3(in.i("x", -6, 6), in.i("y", -6, 6), in.i("z", -6, 6)), k) : gpt(in, "to"));
		else if (m.nb_triangles()) m.unlink_triangle(in.i("gone", 0, m.nb_triangles() - 1));
		measured("area after a change");
	}
}
CASE(empty) {
	Mesh m; if (in.b("cleared")) { randmesh(in, m); m.clear(); } else if (in.b("vertices")) for (int i = in.i("nv", 1, 4); i > 0; i--) m.add_vertex(gpt(in, "v"));
	else if (in.b("removed")) { m.add_triangle(gpt(in, "a"), gpt(in, "b"), gpt(in, "c")); m.unlink_triangle(0); }
	CHECK(MeshMeasurements::surface(m) == 0, "area of an empty mesh"); CHECK(MeshMeasurements::volume(m) == 0, "volume of an empty mesh");
	CHECK(MeshMeasurements::has_no_degenerated_triangles(m), "an empty mesh has degenerate triangles"); CHECK(MeshMeasurements::is_oriented_outside(m), "an empty mesh faces inward");
}
CASE(closed_and_clean) {
	Mesh m; if (in.b("tetrahedron")) { Point3 p[4]; for (auto& x : p) x = gpt(in, "p"); int s = in.b("inside") ? 1 : 0; int k[4]; for (int i = 0; i < 4; i++) k[i] = m.add_vertex(p[in.one_in("same", 8) ? 0 : i]); int f[4][3] = { {0,1,2},{0,3,1},{1,3,2},{0,2,3} }; int miss = in.one_in("open", 3) ? in.i("miss", 0, 3) : -1; for (int i = 0; i < 4; i++) { if (s) std::swap(f[i][1], f[i][2]); int t = m.add_triangle(k[f[i][0]], k[f[i][1]], k[f[i][2]]); if (i == miss && in.b("removed")) m.unlink_triangle(t); } } else randmesh(in, m, 8, 10, true, in.b("integer"));
	RefMesh r = snap(m); bool closed = true;
	for (size_t i = 0; i < r.t.size(); i++) if (!r.t[i].dead) { int v[4] = { r.t[i].a, r.t[i].b, r.t[i].c, r.t[i].a }; for (int e = 0; e < 3; e++) { bool found = false; for (size_t j = 0; j < r.t.size(); j++) if (j != i && !r.t[j].dead) { int w[4] = { r.t[j].a, r.t[j].b, r.t[j].c, r.t[j].a }; for (int g = 0; g < 3; g++) if ((w[g] == v[e] && w[g + 1] == v[e + 1]) || (w[g] == v[e + 1] && w[g + 1] == v[e])) found = true; } if (!found) closed = false; } }
	if (MeshMeasurements::is_closed(m)) CHECK(closed, "reported closed with an open side");
	if (MeshMeasurements::is_clean(m)) CHECK(closed && MeshMeasurements::has_no_degenerated_triangles(m) && MeshMeasurements::is_oriented_outside(m), "reported clean but closed: %d, free of degenerate triangles: %d, outward: %d", (int)closed, (int)MeshMeasurements::has_no_degenerated_triangles(m), (int)MeshMeasurements::is_oriented_outside(m));
	CHECK(diff(snap(m), r).empty(), "measuring changed the mesh");
}
