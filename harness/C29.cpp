//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp QuadBezierTriangle.cpp SmoothMesh.cpp SmoothMeshFactory.cpp
#define H_TOL 1e-10
#include "geo.h"
#include "SmoothMesh.h"
#include "SmoothMeshFactory.h"
#define SAME(a, b, ...) do { double _x = (a), _y = (b); CHECK(std::fabs(_x - _y) <= 1e-9 * std::fabs(_y), __VA_ARGS__); } while (0)
static double sz(H::In& in, const char* n) { double s = in.num(n, .01, 100) + .01; int e = in.i("decade", -9, 9); return e % 2 ? s * std::pow(10., e) : s; }
static Point3 side(const QuadBezierTriangle& q, int k, double t) { return k == 0 ? q.eval(1 - t, t, 0) : k == 1 ? q.eval(0, 1 - t, t) : q.eval(t, 0, 1 - t); }
static bool eq(const Point3& a, const Point3& b, double size) { return len(sub(a, b)) <= 1e-9 * size; }
// every side of every patch is the side of exactly one other patch, run backwards; patches face outward; -> volume of the corner triangles
static double closed(const SmoothMesh& m, int n, double size, bool flat) {
	CHECK(m.nb_triangles() == n, "%d patches", m.nb_triangles()); double vol = 0;
	for (int i = 0; i < n; i++) {
		const QuadBezierTriangle& q = m.triangle(i);
		Point3 a = q.eval(1, 0), b = q.eval(0, 1), c = q.eval(0, 0);
		double d = dot(a, crs(b, c)); CHECK(d > 0, "patch %d faces inward", i); vol += d / 6;
		for (int k = 0; k < 3; k++) {
			int mates = 0;
			for (int j = 0; j < n; j++) for (int l = 0; l < 3; l++) {
				bool s = true; for (double t : { 0., .25, .5, 1. }) s = s && eq(side(q, k, t), side(m.triangle(j), l, 1 - t), size);
				mates += s;
			}
			CHECK(mates == 1, "side %d of patch %d is met by %d sides run backwards", k, i, mates);
		}
		if (flat) for (double s : { .25, .5 }) for (double u : { .125, .4 }) CHECK(eq(q.eval(s, u), add(add(mul(a, s), mul(b, u)), mul(c, 1 - s - u)), size), "patch %d is not flat", i);
	}
	return vol;
}
static void before(H::In& in, SmoothMesh& m) { int n = in.i("former", 0, 3); for (int i = 0; i < n; i++) m.add_flat_triangle(gpt(in, "a"), gpt(in, "b"), gpt(in, "c")); }
static void corners(const SmoothMesh& m, double R) { for (int i = 0; i < m.nb_triangles(); i++) for (int k = 0; k < 3; k++) SAME(len(side(m.triangle(i), k, 0)), R, "corner %d of patch %d", k, i); }
CASE(solids) {
	SmoothMesh m; before(in, m); double d = sz(in, "size"), phi = (1 + std::sqrt(5.)) / 2; using namespace SmoothMeshFactory;
	switch (in.i("solid", 0, 4)) {
	case 0: create_tetrahedron(d, m); SAME(closed(m, 4, d, true), 8 * d * d * d / 3, "volume of the tetrahedron"); corners(m, d * std::sqrt(3.)); break;
	case 1: {
		double y = d * in.num("y", .1, 10), z = d * in.num("z", .1, 10); create_box(d, y, z, m); SAME(closed(m, 12, std::min(d, std::min(y, z)), true), d * y * z, "volume of the box");
		for (int i = 0; i < 12; i++) for (int k = 0; k < 3; k++) { Point3 p = side(m.triangle(i), k, 0); SAME(std::fabs(p._x), d / 2, "corner of the box"); SAME(std::fabs(p._y), y / 2, "corner of the box"); SAME(std::fabs(p._z), z / 2, "corner of the box"); }
		break; }
	case 2: create_octahedron(d, m); SAME(closed(m, 8, d, true), 4 * d * d * d / 3, "volume of the octahedron"); corners(m, d); break;
	case 3: create_dodecahedron(d, m); { double a = 2 / phi * d; SAME(closed(m, 36, d, true), (15 + 7 * std::sqrt(5.)) / 4 * a * a * a, "volume of the dodecahedron"); } corners(m, d * std::sqrt(3.)); break;
	case 4: create_icosahedron(d, m); { double a = 2 / phi * d; SAME(closed(m, 20, d, true), 5 * (3 + std::sqrt(5.)) / 12 * a * a * a, "volume of the icosahedron"); } corners(m, d * std::sqrt(1 + 1 / (phi * phi))); break;
	}
}
CASE(sphere) {
	SmoothMesh m; before(in, m); double R = sz(in, "radius"); SmoothMeshFactory::create_sphere(R, m);
	SAME(closed(m, 8, R, false), 4 * R * R * R / 3, "volume between the corners of the sphere"); corners(m, R);
	for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) for (double e : { 0., 1. }) {     // tangent at both ends of each side
		Point3 p = side(m.triangle(i), k, e), q = side(m.triangle(i), k, e ? 1 - 1e-5 : 1e-5);
		CHECK(std::fabs(dot(sub(q, p), p)) <= 1e-8 * R * R, "patch %d leaves the sphere at an end of side %d", i, k);
	}
}
CASE(polygons) {
	SmoothMesh m; before(in, m); int n0 = m.nb_triangles(), n = in.i("sides", 3, 5); Point3 p[5];
	Point3 o = gpt(in, "o"), x = gpt(in, "x"), y = gpt(in, "y"); double t0 = in.num("t", 0, 6);
	for (int i = 0; i < n; i++) { double t = t0 + 6.283185307179586 * i / n; p[i] = add(o, add(mul(x, std::cos(t)), mul(y, std::sin(t)))); }
	if (n == 3) m.add_flat_triangle(p[0], p[1], p[2]); else if (n == 4) m.add_flat_quad(p[0], p[1], p[2], p[3]); else m.add_flat_pentagon(p[0], p[1], p[2], p[3], p[4]);
	CHECK(m.nb_triangles() == n0 + n - 2, "%d patches for %d sides", m.nb_triangles() - n0, n);
	Point3 a(0, 0, 0), b(0, 0, 0); for (int i = 0; i < n; i++) a = add(a, crs(sub(p[i], o), sub(p[(i + 1) % n], o)));
	for (int i = n0; i < m.nb_triangles(); i++) { const QuadBezierTriangle& q = m.triangle(i); Point3 u = q.eval(1, 0), v = q.eval(0, 1), w = q.eval(0, 0), c = crs(sub(v, u), sub(w, u)); b = add(b, c); CHECK(dot(c, a) >= -1e-9 * (1 + dot(a, a)), "patch %d is turned over", i); }
	NEARP(a, b, "area of the polygon");
}
