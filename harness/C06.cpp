//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp QuadBezierTriangle.cpp SmoothMesh.cpp NurbsCurve.cpp NurbsSurface.cpp NurbsSolid.cpp
#define H_TOL 1e-10
#include "meshref.h"
#include "Transform.h"
#include "SmoothMesh.h"
#include "NurbsSolid.h"
// a user-defined, non-linear, non-idempotent transform
struct Warp : Transform {
	double k; mutable long calls = 0;
	Warp(double k) : k(k) {}
	static Point3 img(double k, const Point3& p) { return Point3(p.y() + k, p.z() * 2 + p.x() * p.x(), p.x() - k * p.y()); }
	void apply(Point3& p) const override { calls++; p = img(k, p); }
};
struct Probe : QuadBezierTriangle {
	Probe(const QuadBezierTriangle& q) : QuadBezierTriangle(q) {}
	std::vector<Point3> pts() const { return { _P1, _P2, _P3, _controlP1P2, _controlP1P3, _controlP2P3 }; }
	std::vector<double> w() const { return { _wP1, _wP2, _wP3, _wP1P2, _wP1P3, _wP2P3 }; }
};
static QuadBezierTriangle rq(H::In& in) {
	QuadBezierTriangle q; q.set_points(gpt(in, "a"), gpt(in, "b"), gpt(in, "c"));
	if (in.b("ctl")) q.set_control_points(gpt(in, "d"), gpt(in, "e"), gpt(in, "f"));
	if (in.b("wts")) { double w[6]; for (double& x : w) x = in.num("w", .5, 3); q.set_weights(w[0], w[1], w[2], w[3], w[4], w[5]); }
	return q;
}
static void patch(const QuadBezierTriangle& a, const QuadBezierTriangle& b, double k, const char* what) {
	Probe x(a), y(b); auto p = x.pts(), q = y.pts();
	for (int i = 0; i < 6; i++) CHECK(same(q[i], Warp::img(k, p[i])), "%s: control point %d", what, i);
	CHECK(x.w() == y.w(), "%s: weights changed", what);
}
static NurbsSurface rs(H::In& in) {
	NurbsSurface s; int nu = in.i("nu", 2, 5), nv = in.i("nv", 2, 5); int du = in.i("du", 1, nu - 1), dv = in.i("dv", 1, nv - 1);
	std::vector<Point3> p; for (int i = 0; i < nu * nv; i++) p.push_back(gpt(in, "p"));
	if (in.b("same")) p.back() = p.front();
	s.set_degree(du, dv); s.set_points(p, nu, nv); s.set_uniform_u(); s.set_uniform_v(); s.set_equals_weights();
	if (in.b("rational")) { auto w = s.weights(); for (double& x : w) x = in.num("w", .5, 3); s.set_weights(w); }
	s.set_closed_u(in.b("cu")); s.set_closed_v(in.b("cv"));
	return s;
}
static void surf(const NurbsSurface& a, const NurbsSurface& b, double k, const char* what) {
	CHECK(a.points().size() == b.points().size() && a.nb_points_u() == b.nb_points_u() && a.nb_points_v() == b.nb_points_v(), "%s: point counts changed", what);
	for (size_t i = 0; i < a.points().size(); i++) CHECK(same(b.points()[i], Warp::img(k, a.points()[i])), "%s: point %zu", what, i);
	CHECK(a.knots_u() == b.knots_u() && a.knots_v() == b.knots_v(), "%s: knots changed", what);
	CHECK(a.weights() == b.weights(), "%s: weights changed", what);
	CHECK(a.degree_u() == b.degree_u() && a.degree_v() == b.degree_v() && a.is_closed_u() == b.is_closed_u() && a.is_closed_v() == b.is_closed_v(), "%s: degrees or closed flags changed", what);
}
CASE(list) {
	Warp t(in.num("k", -2, 2)); std::vector<Point3> v; int n = in.small("n", 0, 40); for (int i = 0; i < n; i++) v.push_back(gpt(in, "p"));
	auto o = v; t.apply_all(v); CHECK(v.size() == o.size(), "size changed");
	for (int i = 0; i < n; i++) CHECK(same(v[i], Warp::img(t.k, o[i])), "point %d of %d", i, n);
}
CASE(mesh) {
	Warp t(in.num("k", -2, 2)); Mesh m; randmesh(in, m, 12, 12); RefMesh r = snap(m); for (auto& p : r.v) p = Warp::img(t.k, p);
	m.apply_transform(t); SAMEMESH(m, r, "transformed mesh");
}
CASE(bezier) { Warp t(in.num("k", -2, 2)); auto a = rq(in), b = a; b.apply_transform(t); patch(a, b, t.k, "patch"); }
CASE(smooth) {
	Warp t(in.num("k", -2, 2)); SmoothMesh s; int n = in.small("n", 0, 6); std::vector<QuadBezierTriangle> o;
	for (int i = 0; i < n; i++) { o.push_back(rq(in)); s.add_triangle(o.back()); }
	s.apply_transform(t); CHECK(s.nb_triangles() == n, "%d patches, expected %d", s.nb_triangles(), n);
	for (int i = 0; i < n; i++) patch(o[i], s.triangle(i), t.k, "smooth mesh");
}
CASE(surface) { Warp t(in.num("k", -2, 2)); auto a = rs(in), b = a; b.apply_transform(t); surf(a, b, t.k, "surface"); }
CASE(solid) {
	Warp t(in.num("k", -2, 2)); NurbsSolid s; int n = in.small("n", 0, 4); std::vector<NurbsSurface> o;
	for (int i = 0; i < n; i++) { o.push_back(rs(in)); s.add_surface(o.back()); }
	s.apply_transform(t); CHECK((int)s.surfaces().size() == n, "surface count");
	for (int i = 0; i < n; i++) surf(o[i], s.surfaces()[i], t.k, "solid");
}
