//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp NurbsCurve.cpp NurbsSurface.cpp NurbsRuled.cpp NurbsRevolve.cpp NurbsUtil.cpp NurbsSolid.cpp NurbsFactory.cpp
#define H_TOL 1e-10
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "NurbsFactory.h"
#include "spline.h"
static void junk(H::In& in, NurbsSurface& s) {
	if (in.b("fresh")) return; s.set_degree(in.i("jd", 0, 3), 2); s.set_points(vector<Point3>(20, Point3(1, 2, 3)), 5, 4); s.set_weights(vector<double>(20, 3.)); s.set_uniform_u(); s.set_uniform_v(); s.set_closed_u(in.b("jcu")); s.set_closed_v(in.b("jcv"));
}
static void junk(H::In& in, NurbsSolid& n) { int k = in.i("old", 0, 2); for (int i = 0; i < k; i++) { NurbsSurface s; junk(in, s); n.add_surface(s); } }
static void knots_ok(const vector<double>& k, int d, int n, const char* what) {
	CHECK(n > d && (int)k.size() == n + d + 1, "%s: %zu knots for degree %d and %d points", what, k.size(), d, n);
	for (int i = 0; i <= d; i++) CHECK(k[i] == 0 && k[k.size() - 1 - i] == 1, "%s: knots not clamped", what);
	for (size_t i = 0; i + 1 < k.size(); i++) CHECK(k[i] <= k[i + 1], "%s: knots not sorted", what);
}
static void sizes(const NurbsSurface& s, const char* what) {
	CHECK(s.points().size() == (size_t)s.nb_points_u() * s.nb_points_v() && s.weights().size() == s.points().size(), "%s: %zu points and %zu weights for %d x %d", what, s.points().size(), s.weights().size(), s.nb_points_u(), s.nb_points_v());
	for (double w : s.weights()) CHECK(w > 0, "%s: weight %g", what, w);
	knots_ok(s.knots_u(), s.degree_u(), s.nb_points_u(), what); knots_ok(s.knots_v(), s.degree_v(), s.nb_points_v(), what);
}
static double par(H::In& in, const char* n) { int k = in.i("kind", 0, 5); double v = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? in.i("q", 0, 8) / 8. : in.uni(n, 0, 1); return v; }
static double R(H::In& in, const char* n) { double v = in.num(n, .01, 20); return in.one_in("tiny", 8) ? v * 1e-3 : in.one_in("huge", 8) ? v * 1e4 : v; }
#define AT(s) double u = par(in, "u"), v = par(in, "v"); Point3 p; (s).evaluate(u, v, p)
static double ax(const Point3& p) { return std::hypot(p.x(), p.y()); }
#define REL(a, b, scale, fmt, ...) CHECK(std::fabs((a) - (b)) <= 1e-9 * (scale), fmt " is %.12g instead of %.12g", ##__VA_ARGS__, (double)(a), (double)(b))
CASE(circle) {
	double r = R(in, "r"); NurbsCurve c; if (in.b("used")) { NurbsFactory::create_curve_from_points({ Point3(1,1,1),Point3(2,2,2) }, 1, c); } NurbsFactory::create_circle(r, c); knots_ok(c.knots(), c.degree(), c.nb_points(), "circle"); CHECK((int)c.weights().size() == c.nb_points(), "weights");
	for (int i = 0; i < 8; i++) { double u = par(in, "u"); Point3 p; c.evaluate(u, p); REL(p.z(), 0., r, "z at %g", u); REL(ax(p), r, r, "radius at %g", u); }
	Point3 a, b; c.evaluate(0, a); c.evaluate(1, b); CHECK(len(sub(a, b)) <= 1e-9 * r, "not closed");
	// all the way round: the four quarter points surround the centre
	double q[4] = { 0 }; for (int i = 0; i < 64; i++) { Point3 p; c.evaluate(i / 64., p); q[(p.x() > 0) + 2 * (p.y() > 0)]++; } for (double x : q) CHECK(x > 8, "a quarter of the circle is missing");
}
static void around(const NurbsSurface& s, double v, const char* what) { double q[4] = { 0 }; for (int i = 0; i < 64; i++) { Point3 p; s.evaluate(i / 64., v, p); q[(p.x() > 0) + 2 * (p.y() > 0)]++; } for (double x : q) CHECK(x > 8, "%s: a quarter is missing", what); }
static void disk(H::In& in, const NurbsSurface& s, double r, double z, double scale, const char* what) {
	for (int i = 0; i < 6; i++) { AT(s); REL(p.z(), z, scale, "%s: height at (%g,%g)", what, u, v); REL(ax(p), v * r, scale, "%s: distance to the axis at (%g,%g)", what, u, v); }
	around(s, 1, what);
}
CASE(disk) { double r = R(in, "r"); NurbsSurface s; junk(in, s); NurbsFactory::create_disk(r, s); sizes(s, "disk"); disk(in, s, r, 0, r, "disk"); CHECK(s.is_closed_u(), "closed flag"); }
static void sphere(H::In& in, const NurbsSurface& s, double r) {
	sizes(s, "sphere"); for (int i = 0; i < 8; i++) { AT(s); REL(len(p), r, r, "distance to the centre at (%g,%g)", u, v); }
	Point3 a, b; s.evaluate(.3, 0, a); s.evaluate(.3, 1, b); REL(std::fabs(a.z() - b.z()), 2 * r, r, "distance between the poles"); around(s, .5, "sphere"); CHECK(s.is_closed_u(), "closed flag");
}
CASE(sphere) { double r = R(in, "r"); if (in.b("solid")) { NurbsSolid n; junk(in, n); NurbsFactory::create_sphere(r, n); CHECK(n.surfaces().size() == 1, "%zu surfaces", n.surfaces().size()); sphere(in, n.surfaces()[0], r); } else { NurbsSurface s; junk(in, s); NurbsFactory::create_sphere(r, s); sphere(in, s, r); } }
static void torus(H::In& in, const NurbsSurface& s, double M, double m) {
	sizes(s, "torus"); for (int i = 0; i < 8; i++) { AT(s); if (m <= M) REL(std::hypot(ax(p) - M, p.z()), m, M + m, "distance to the ring at (%g,%g)", u, v); else { double d = std::fabs(std::hypot(ax(p) - M, p.z()) - m), e = std::fabs(std::hypot(ax(p) + M, p.z()) - m); CHECK(std::min(d, e) <= 1e-9 * (M + m), "distance to the ring at (%g,%g)", u, v); } }
	CHECK(s.is_closed_u() && s.is_closed_v(), "closed flags"); double lo = 1e300, hi = -1e300, in_ = 1e300, out = 0; for (int i = 0; i < 16; i++) { Point3 p; s.evaluate(.1, i / 16., p); lo = std::min(lo, p.z()); hi = std::max(hi, p.z()); in_ = std::min(in_, ax(p)); out = std::max(out, ax(p)); }
	REL(hi - lo, 2 * m, M + m, "height"); if (m <= M) REL(out - in_, 2 * m, M + m, "thickness"); if (m < M * .9) around(s, .2, "torus");
}
CASE(torus) { double M = R(in, "M"), m = in.b("fat") ? R(in, "m") : M * in.num("f", .01, .99); if (in.b("solid")) { NurbsSolid n; junk(in, n); NurbsFactory::create_torus(M, m, n); CHECK(n.surfaces().size() == 1, "%zu surfaces", n.surfaces().size()); torus(in, n.surfaces()[0], M, m); } else { NurbsSurface s; junk(in, s); NurbsFactory::create_torus(M, m, s); torus(in, s, M, m); } }
CASE(cylinder) {
	double r = R(in, "r"), h = R(in, "h"); NurbsSolid n; junk(in, n); NurbsFactory::create_cylinder(r, h, n); CHECK(n.surfaces().size() == 3, "%zu surfaces", n.surfaces().size()); for (auto& s : n.surfaces()) sizes(s, "cylinder");
	disk(in, n.surfaces()[0], r, -h / 2, r + h, "bottom"); disk(in, n.surfaces()[2], r, h / 2, r + h, "top"); auto& s = n.surfaces()[1]; around(s, .5, "side");
	for (int i = 0; i < 8; i++) { AT(s); REL(ax(p), r, r + h, "side: distance to the axis at (%g,%g)", u, v); REL(p.z(), (v - .5) * h, r + h, "side: height at (%g,%g)", u, v); }
}
static Point3 ev(const NurbsSurface& s, double u, double v) { Point3 p; s.evaluate(u, v, p); return p; }
CASE(polygon) {
	Point3 p[4]; bool tri = in.b("triangle"); for (int i = 0; i < 4; i++) p[i] = gpt(in, "p"); if (tri) p[3] = p[2]; NurbsSurface s; junk(in, s);
	if (tri) NurbsFactory::create_triangle(p[0], p[1], p[2], s); else NurbsFactory::create_quad(p[0], p[1], p[2], p[3], s); sizes(s, "polygon");
	static const int cu[] = { 0,1,1,0 }, cv[] = { 0,0,1,1 }; for (int i = 0; i < 4; i++) { Point3 q = ev(s, cu[i], cv[i]); CHECK(len(sub(q, p[i])) < 1e-9, "corner %d is %s instead of %s", i + 1, str(q).c_str(), str(p[i]).c_str()); }
	for (int i = 0; i < 5; i++) { double u = par(in, "u"), v = par(in, "v"); Point3 q = ev(s, u, v), w = add(add(mul(p[0], (1 - u) * (1 - v)), mul(p[1], u * (1 - v))), add(mul(p[2], u * v), mul(p[3], (1 - u) * v))); CHECK(len(sub(q, w)) < 1e-9, "(%g,%g) is %s instead of %s", u, v, str(q).c_str(), str(w).c_str()); }
}
CASE(box) {
	double S[3] = { R(in, "x"), R(in, "y"), R(in, "z") }; NurbsSolid n; junk(in, n); NurbsFactory::create_box(S[0], S[1], S[2], n); CHECK(n.surfaces().size() == 6, "%zu faces", n.surfaces().size());
	std::map<std::pair<int, int>, int> e; std::set<int> sides; static const int cu[] = { 0,1,1,0 }, cv[] = { 0,0,1,1 };
	for (auto& s : n.surfaces()) {
		sizes(s, "face"); int id[4]; for (int i = 0; i < 4; i++) { Point3 q = ev(s, cu[i], cv[i]); double c[3] = { q.x(),q.y(),q.z() }; id[i] = 0; for (int a = 0; a < 3; a++) { REL(std::fabs(c[a]), S[a] / 2, S[a], "box corner coordinate %d", a); if (c[a] > 0) id[i] |= 1 << a; } }
		int all = 7, none = 7; for (int i = 0; i < 4; i++) { all &= id[i]; none &= ~id[i]; e[{id[i], id[(i + 1) % 4]}]++; }
		CHECK(__builtin_popcount(all) + __builtin_popcount(none) == 1, "a face is not one side of the box"); sides.insert(all ? all : none << 4);
		Point3 a = ev(s, 0, 0), b = ev(s, 1, 0), c = ev(s, 1, 1); CHECK(dot(crs(sub(b, a), sub(c, a)), a) > 0, "a face is turned inward");
		double u = par(in, "u"), v = par(in, "v"); Point3 q = ev(s, u, v); double cc[3] = { q.x(),q.y(),q.z() }; int t = all ? all : none; for (int k = 0; k < 3; k++) if (t >> k & 1) REL(cc[k], (all ? .5 : -.5) * S[k], S[k], "face plane"); else CHECK(std::fabs(cc[k]) <= S[k] / 2 * (1 + 1e-9), "outside");
	}
	CHECK(sides.size() == 6 && e.size() == 24, "%zu sides, %zu edges", sides.size(), e.size()); for (auto& x : e) CHECK(x.second == 1 && e.count({ x.first.second, x.first.first }), "an edge is not matched");
}
CASE(from_points) {
	int d = in.i("d", 0, 4), n = d + 1 + in.small("more", 0, 12); vector<Point3> p; for (int i = 0; i < n; i++) p.push_back(gpt(in, "p")); NurbsCurve c; if (in.b("used")) NurbsFactory::create_circle(3, c); NurbsFactory::create_curve_from_points(p, d, c);
	CHECK(c.degree() == d && c.nb_points() == n && (int)c.weights().size() == n, "sizes"); knots_ok(c.knots(), d, n, "curve"); for (int i = 0; i < n; i++) CHECK(same(c.points()[i], p[i]) && c.weights()[i] == 1, "point or weight %d", i);
	for (int i = d; i < n; i++) CHECK(std::fabs(c.knots()[i + 1] - c.knots()[i] - 1. / (n - d)) < 1e-12, "knots are not uniform");
	if (d > 0) for (int i = 0; i < 4; i++) { double u = gpar(in, "u", c.knots()); Point3 q; c.evaluate(u, q); Point3 r = bspline(c.knots(), d, p, c.weights(), u); CHECK(len(sub(q, r)) < 1e-8, "at %g", u); }
}
