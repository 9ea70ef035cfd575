//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp NurbsCurve.cpp NurbsSurface.cpp NurbsRuled.cpp NurbsRevolve.cpp NurbsUtil.cpp NurbsSolid.cpp NurbsFactory.cpp
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "NurbsFactory.h"
#include "NurbsUtil.h"
#include "spline.h"
#include "meshref.h"
static NurbsSurface gsurf(H::In& in) {
	NurbsSurface s; int du = in.i("du", 0, 3), dv = in.i("dv", 0, 3), nu = du + 1 + in.small("eu", 0, 3), nv = dv + 1 + in.small("ev", 0, 3);
	vector<Point3> p; vector<double> w; for (int i = 0; i < nu * nv; i++) { p.push_back(gpt(in, "p")); w.push_back(in.num("w", .3, 3)); }
	s.set_degree(du, dv); s.set_points(p, nu, nv); s.set_weights(w); s.set_knots_u(gknots(in, "ku", du, nu, std::max(1, du))); s.set_knots_v(gknots(in, "kv", dv, nv, std::max(1, dv))); s.set_closed_u(in.b("cu")); s.set_closed_v(in.b("cv")); return s;
}
static Point3 ev(const NurbsSurface& s, double u, double v) {
	auto A = basis(s.knots_u(), s.degree_u(), u), B = basis(s.knots_v(), s.degree_v(), v); LD x = 0, y = 0, z = 0, d = 0;
	for (int j = 0; j < s.nb_points_v(); j++) for (int i = 0; i < s.nb_points_u(); i++) { int k = i + s.nb_points_u() * j; LD c = A[i] * B[j] * s.weights()[k]; auto& p = s.points()[k]; d += c; x += c * p.x(); y += c * p.y(); z += c * p.z(); }
	return Point3((double)(x / d), (double)(y / d), (double)(z / d));
}
typedef std::multiset<std::array<int, 3>> Tris;
static std::array<int, 3> rot(int a, int b, int c) { std::array<int, 3> x{ a,b,c }, y{ b,c,a }, z{ c,a,b }; return std::min(x, std::min(y, z)); }
static bool take(Tris& t, std::array<int, 3> k) { auto it = t.find(k); if (it == t.end()) return false; t.erase(it); return true; }
// the part of m after (nv0, nt0) is the mesh of s
static void part(const NurbsSurface& s, const Mesh& m, int seg, int& nv0, int& nt0) {
	int NU = seg * s.nb_points_u(), NV = seg * s.nb_points_v(); if (seg == 0) return;
	CHECK(m.nb_vertices() >= nv0 + (NU + 1) * (NV + 1) && m.nb_triangles() >= nt0 + 2 * NU * NV, "%d vertices, %d triangles for a grid of %d x %d cells", m.nb_vertices(), m.nb_triangles(), NU, NV);
	for (int v = 0; v <= NV; v++) for (int u = 0; u <= NU; u++) { Point3 p; m.get_vertex(nv0 + u + (NU + 1) * v, p); Point3 q = ev(s, (double)u / NU, (double)v / NV); CHECK(len(sub(p, q)) < 1e-7 * (1 + len(q)), "node (%d,%d) is at %s instead of %s", u, v, str(p).c_str(), str(q).c_str()); }
	Tris t; for (int i = nt0; i < nt0 + 2 * NU * NV; i++) { int a, b, c; CHECK(!m.is_triangle_unlinked(i), "triangle %d is removed", i); m.get_triangle_vertices(i, a, b, c); t.insert(rot(a, b, c)); }
	for (int v = 0; v < NV; v++) for (int u = 0; u < NU; u++) {
		int ue = s.is_closed_u() && u == NU - 1 ? 0 : u + 1, ve = s.is_closed_v() && v == NV - 1 ? 0 : v + 1; auto at = [&](int a, int b) { return nv0 + a + (NU + 1) * b; };
		int q[4] = { at(u,v), at(ue,v), at(ue,ve), at(u,ve) }; bool ok = false;
		for (int k = 0; k < 2 && !ok; k++) { auto x = rot(q[k], q[(k + 1) % 4], q[(k + 2) % 4]), y = rot(q[k], q[(k + 2) % 4], q[(k + 3) % 4]); if (t.count(x) && t.count(y)) { ok = take(t, x) && take(t, y); } }
		CHECK(ok, "cell (%d,%d) of %d x %d is not covered by two triangles (closed %d %d)", u, v, NU, NV, s.is_closed_u(), s.is_closed_v());
	}
	nv0 += (NU + 1) * (NV + 1); nt0 += 2 * NU * NV;
}
CASE(surface) {
	NurbsSurface s = gsurf(in); int seg = in.small("segments", 0, 3); bool clear = in.b("clear"); Mesh m; randmesh(in, m); RefMesh o = snap(m); NurbsUtil::to_mesh(s, m, seg, clear);
	int nv = clear ? 0 : o.v.size(), nt = clear ? 0 : o.t.size(); int a = nv, b = nt; part(s, m, seg, nv, nt); CHECK(m.nb_vertices() == nv && m.nb_triangles() == nt, "%d vertices and %d triangles instead of %d and %d", m.nb_vertices(), m.nb_triangles(), nv, nt);
	RefMesh n = snap(m); n.v.resize(a); n.t.resize(b); std::string d = diff(n, o); if (!clear) CHECK(d.empty(), "the mesh that was appended to: %s", d.c_str());
}
CASE(solid) {
	NurbsSolid n; int k = in.i("faces", 0, 3); for (int i = 0; i < k; i++) n.add_surface(gsurf(in)); int seg = in.small("segments", 0, 2); Mesh m; randmesh(in, m); NurbsUtil::to_mesh(n, m, seg);
	int nv = 0, nt = 0; for (auto& s : n.surfaces()) part(s, m, seg, nv, nt); CHECK(m.nb_vertices() == nv && m.nb_triangles() == nt, "%d vertices and %d triangles instead of %d and %d", m.nb_vertices(), m.nb_triangles(), nv, nt);
}
CASE(heights) {
	int d = in.i("d", 0, 3), nx = d + 1 + in.small("ex", 0, 6), ny = d + 1 + in.small("ey", 0, 6); vector<double> z; for (int i = 0; i < nx * ny; i++) z.push_back(in.num("z")); NurbsSurface s; if (in.b("used")) s = gsurf(in);
	NurbsUtil::create_from_z(z, nx, ny, d, s); CHECK(s.nb_points_u() * s.nb_points_v() == nx * ny && (int)s.points().size() == nx * ny && (int)s.weights().size() == nx * ny, "counts"); CHECK(s.degree_u() == d && s.degree_v() == d, "degrees");
	CHECK((int)s.knots_u().size() == s.nb_points_u() + d + 1 && (int)s.knots_v().size() == s.nb_points_v() + d + 1, "knots"); CHECK(!s.is_closed_u() && !s.is_closed_v(), "closed");
	int nu = s.nb_points_u(), nv = s.nb_points_v(); bool turned = nu == ny && nv == nx && (nu == 1 || s.points()[1].y() == 1);
	for (int j = 0; j < nv; j++) for (int i = 0; i < nu; i++) { auto& p = s.points()[i + nu * j]; int x = turned ? j : i, y = turned ? i : j; CHECK(p.x() == x && p.y() == y, "map %d x %d: control point (%d,%d) is at %s", nx, ny, i, j, str(p).c_str()); CHECK(p.z() == z[x * ny + y], "map %d x %d: sample (%d,%d) is %g instead of %g", nx, ny, x, y, p.z(), z[x * ny + y]); CHECK(s.weights()[i + nu * j] == 1, "weights"); }
	for (int i = 0; i < 3 && d > 0; i++) { double u = in.uni("t", 0, 1), v = in.uni("t", 0, 1); Point3 p; s.evaluate(u, v, p); Point3 q = ev(s, u, v); CHECK(len(sub(p, q)) < 1e-7, "evaluation"); }
}
CASE(control) {
	NurbsSurface s = gsurf(in); Mesh m; randmesh(in, m); NurbsUtil::to_controlpoints_mesh(s, m); int nu = s.nb_points_u(), nv = s.nb_points_v(); CHECK(m.nb_triangles() == 2 * (nu - 1) * (nv - 1), "%d triangles for %d x %d points", m.nb_triangles(), nu, nv);
	typedef std::array<std::array<double, 3>, 3> T; auto key = [](Point3 a, Point3 b, Point3 c) { std::array<std::array<double, 3>, 3> k{ { {a.x(),a.y(),a.z()},{b.x(),b.y(),b.z()},{c.x(),c.y(),c.z()} } }; auto y = k, z = k; std::rotate(y.begin(), y.begin() + 1, y.end()); std::rotate(z.begin(), z.begin() + 2, z.end()); return std::min(k, std::min(y, z)); };
	std::multiset<T> t; for (int i = 0; i < m.nb_triangles(); i++) { Triangle3 x; CHECK(!m.is_triangle_unlinked(i), "removed"); m.get_triangle(i, x); t.insert(key(x.p1(), x.p2(), x.p3())); }
	for (int u = 0; u + 1 < nu; u++) for (int v = 0; v + 1 < nv; v++) { auto P = [&](int a, int b) { return s.points()[a + nu * b]; }; Point3 q[4] = { P(u,v),P(u + 1,v),P(u + 1,v + 1),P(u,v + 1) }; bool ok = false; for (int k = 0; k < 2 && !ok; k++) { auto x = key(q[k], q[(k + 1) % 4], q[(k + 2) % 4]), y = key(q[k], q[(k + 2) % 4], q[(k + 3) % 4]); auto a = t.find(x); if (a == t.end()) continue; t.erase(a); auto b = t.find(y); if (b == t.end()) { t.insert(x); continue; } t.erase(b); ok = true; } CHECK(ok, "control cell (%d,%d) of %d x %d is not there", u, v, nu, nv); }
}
CASE(from_mesh) {
	Mesh m; randmesh(in, m); NurbsSolid n; if (in.b("used")) n.add_surface(gsurf(in)); NurbsUtil::create_from_mesh(m, n); size_t k = 0; RefMesh o = snap(m);
	for (int i = 0; i < m.nb_triangles(); i++) { if (m.is_triangle_unlinked(i)) continue; CHECK(k < n.surfaces().size(), "%zu surfaces are too few", n.surfaces().size()); auto& s = n.surfaces()[k++]; Triangle3 t; m.get_triangle(i, t); double c[4][2] = { {0,0},{1,0},{1,1},{0,1} }; Point3 w[4] = { t.p1(),t.p2(),t.p3(),t.p3() }; for (int q = 0; q < 4; q++) { Point3 p; s.evaluate(c[q][0], c[q][1], p); CHECK(len(sub(p, w[q])) < 1e-9, "surface %zu corner %d is %s instead of %s", k - 1, q, str(p).c_str(), str(w[q]).c_str()); } }
	CHECK(n.surfaces().size() == k, "%zu surfaces for %zu live triangles", n.surfaces().size(), k);
}
