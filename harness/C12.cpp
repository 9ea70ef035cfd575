//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp MeshUtil.cpp MeshTessellate.cpp MeshFactory.cpp Image.cpp ImageUtil.cpp ImageIoBmp.cpp
#define H_TOL 1e-10
#include "meshref.h"
#include "MeshFactory.h"
#include <functional>
static double det(const Point3& a, const Point3& b, const Point3& c) { return dot(a, crs(b, c)); }
// closed surface: every oriented edge of a live triangle exactly once, with exactly one opposite; no degenerate triangle; faces outward
static double closed(const Mesh& m, const char* what, double size, std::function<Point3(const Point3&)> inner) {
	RefMesh r = snap(m); std::map<std::pair<int, int>, int> e; double vol = 0; std::set<int> used;
	CHECK(!r.t.empty(), "%s has no triangle", what);
	for (size_t i = 0; i < r.t.size(); i++) {
		auto& t = r.t[i]; CHECK(!t.dead, "%s: triangle %zu is removed", what, i);
		int v[3] = { t.a, t.b, t.c };
		CHECK(v[0] != v[1] && v[1] != v[2] && v[2] != v[0], "%s: triangle %zu (%d %d %d) is degenerate", what, i, v[0], v[1], v[2]);
		for (int k = 0; k < 3; k++) { CHECK(v[k] >= 0 && v[k] < (int)r.v.size(), "%s: index", what); int cnt = ++e[std::make_pair(v[k], v[(k + 1) % 3])]; CHECK(cnt == 1, "%s: oriented edge (%d,%d) is used twice", what, v[k], v[(k + 1) % 3]); used.insert(v[k]); }
		Point3 a = r.v[v[0]], b = r.v[v[1]], c = r.v[v[2]], n = crs(sub(b, a), sub(c, a));
		CHECK(len(n) > 1e-9 * size * size, "%s: triangle %zu has no area", what, i);
		Point3 g = mul(add(add(a, b), c), 1 / 3.);
		CHECK(dot(n, sub(g, inner(g))) > 0, "%s: triangle %zu does not face outward", what, i);
		vol += det(a, b, c) / 6;
	}
	for (auto& x : e) CHECK(e.count(std::make_pair(x.first.second, x.first.first)), "%s: edge (%d,%d) has no opposite", what, x.first.first, x.first.second);
	CHECK(used.size() == r.v.size(), "%s: %zu of %zu vertices are used", what, used.size(), r.v.size());
	for (size_t i = 0; i < r.v.size() && r.v.size() < 400; i++) for (size_t j = 0; j < i; j++) CHECK(len(sub(r.v[i], r.v[j])) > 1e-9 * size, "%s: vertices %zu and %zu coincide", what, i, j);
	CHECK(vol > 0, "%s: volume %g", what, vol);
	return vol;
}
// equal up to rounding, relative to the value
#define SAME(a, b, ...) do { double _x = (a), _y = (b); CHECK(std::fabs(_x - _y) <= 1e-9 * std::fabs(_y), __VA_ARGS__); } while (0)
static Point3 centre(const Point3&) { return Point3(0, 0, 0); }
// all vertices at distance R of the origin, all sides (edges between faces with different normals) of the same length
static void platonic(const Mesh& m, const char* what, int nv, int sides, double R) {
	RefMesh r = snap(m); CHECK((int)r.v.size() == nv, "%s has %zu vertices", what, r.v.size());
	for (auto& p : r.v) SAME(len(p), R, "%s: distance of a vertex to the centre", what);
	std::map<std::pair<int, int>, Point3> n; double L = -1; int count = 0;
	for (auto& t : r.t) { Point3 k = crs(sub(r.v[t.b], r.v[t.a]), sub(r.v[t.c], r.v[t.a])); k = mul(k, 1 / len(k)); n[{ t.a, t.b }] = n[{ t.b, t.c }] = n[{ t.c, t.a }] = k; }
	for (auto& x : n) {
		Point3 o = n[{ x.first.second, x.first.first }];
		if (len(sub(o, x.second)) < 1e-6) continue;
		double l = len(sub(r.v[x.first.first], r.v[x.first.second])); if (L < 0) L = l; count++;
		SAME(l, L, "%s: side (%d,%d)", what, x.first.first, x.first.second);
	}
	CHECK(count == 2 * sides, "%s has %d sides", what, count / 2);
}
static void before(H::In& in, Mesh& m) { if (in.b("full")) randmesh(in, m, 6, 5); }
// sizes of every scale: nothing about a solid depends on its unit of length
static double sz(H::In& in, const char* n) { double s = in.num(n, .01, 100) + .01; int e = in.i("decade", -9, 9); return e % 2 ? s * std::pow(10., e) : s; }
CASE(solids) {
	Mesh m; before(in, m); double d = sz(in, "size"), s5 = std::sqrt(5.), phi = (1 + s5) / 2;
	switch (in.i("solid", 0, 4)) {
	case 0: MeshFactory::create_tetrahedron(d, m); SAME(closed(m, "tetrahedron", d, centre), 8 * d * d * d / 3, "volume of the tetrahedron"); platonic(m, "tetrahedron", 4, 6, d * std::sqrt(3.)); break;
	case 1: {
		double y = sz(in, "y"), z = sz(in, "z"); MeshFactory::create_box(d, y, z, m); SAME(closed(m, "box", std::min(d, std::min(y, z)) * .1, centre), d * y * z, "volume of the box");
		RefMesh r = snap(m); CHECK(r.v.size() == 8, "box has %zu vertices", r.v.size());
		for (auto& p : r.v) CHECK(std::fabs(p._x) == d / 2 && std::fabs(p._y) == y / 2 && std::fabs(p._z) == z / 2, "box %g %g %g has a corner at %s", d, y, z, str(p).c_str()); break; }
	case 2: MeshFactory::create_octahedron(d, m); SAME(closed(m, "octahedron", d, centre), 4 * d * d * d / 3, "volume of the octahedron"); platonic(m, "octahedron", 6, 12, d); break;
	case 3: MeshFactory::create_dodecahedron(d, m); closed(m, "dodecahedron", d, centre); platonic(m, "dodecahedron", 20, 30, d * std::sqrt(3.)); break;
	case 4: MeshFactory::create_icosahedron(d, m); closed(m, "icosahedron", d, centre); platonic(m, "icosahedron", 12, 30, d * std::sqrt(1 + 1 / (phi * phi))); break;
	}
}
CASE(cylinder) {
	Mesh m; before(in, m); double h = sz(in, "height"), R = sz(in, "radius"); int n = in.i("n", 1, 9); MeshFactory::create_cylinder(h, R, n, m);
	double v = closed(m, "cylinder", std::min(h, R) * .05, centre); CHECK(v <= 3.14159266 * R * R * h, "cylinder volume %g", v); CHECK(v >= .75 * 3.14159 * R * R * h, "cylinder volume %g", v);
	RefMesh r = snap(m); double lo = 1e300, hi = -1e300; int ax = 0;
	for (auto& p : r.v) { SAME(std::fabs(p._z), h / 2, "height of a cylinder vertex"); double d = std::hypot(p._x, p._y); if (d == 0) ax++; else SAME(d, R, "radius of a cylinder vertex"); lo = std::min(lo, p._z); hi = std::max(hi, p._z); }
	CHECK(ax == 2, "%d cylinder vertices on the axis", ax); SAME(hi - lo, h, "cylinder height");
}
CASE(sphere_uv) {
	Mesh m; before(in, m); double R = sz(in, "radius"); int n = in.i("n", 1, 7); MeshFactory::create_sphere_uv(R, n, m);
	double v = closed(m, "sphere", R * .01, centre); CHECK(v <= 4.18879021 * R * R * R && v >= .3 * 4.188 * R * R * R, "sphere volume %g", v);
	for (auto& p : snap(m).v) SAME(len(p), R, "radius of a sphere vertex");
}
CASE(sphere_geodesic) {
	Mesh m; before(in, m); double R = sz(in, "radius"); int n = in.i("n", 1, 7); MeshFactory::create_sphere_geodesic(R, n, m);
	double v = closed(m, "geodesic sphere", R * .01, centre); CHECK(v <= 4.18879021 * R * R * R && v >= .5 * 4.188 * R * R * R, "geodesic sphere volume %g", v);
	RefMesh r = snap(m); for (auto& p : r.v) SAME(len(p), R, "radius of a geodesic sphere vertex");
	CHECK((int)r.v.size() == 10 * n * n + 2 && (int)r.t.size() == 20 * n * n, "geodesic sphere of %d segments: %zu vertices, %zu triangles", n, r.v.size(), r.t.size());
}
CASE(torus) {
	Mesh m; before(in, m); double q = sz(in, "minor"), R = q * (1.05 + in.num("ratio", 0, 5)); int n = in.i("n", 1, 7); MeshFactory::create_torus(R, q, n, m);
	double v = closed(m, "torus", q * .01, [&](const Point3& g) { double d = std::hypot(g._x, g._y); return Point3(g._x / d * R, g._y / d * R, 0); });
	CHECK(v <= 2 * 9.8696045 * R * q * q && v > .3 * 2 * 9.8696 * R * q * q, "torus volume %g", v);
	for (auto& p : snap(m).v) { double d = std::hypot(p._x, p._y) - R; SAME(std::hypot(d, p._z), q, "distance of a torus vertex to the ring"); }
}
