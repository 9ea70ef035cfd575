//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp NurbsCurve.cpp NurbsSurface.cpp NurbsExtrude.cpp NurbsRuled.cpp NurbsRevolve.cpp NurbsUtil.cpp NurbsSolid.cpp NurbsFactory.cpp
#define private public
#define protected public
#define H_TOL 1e-10
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#undef private
#undef protected
#include "NurbsExtrude.h"
#include "NurbsRuled.h"
#include "NurbsRevolve.h"
#include "spline.h"
struct Data { int d, n; vector<double> k, w; vector<Point3> p; };
static Data gen(H::In& in, const Data* like = nullptr) {
	Data D; if (like) { D.d = like->d; D.n = like->n; D.k = like->k; } else { D.d = in.i("degree", 0, 4); D.n = D.d + 1 + in.small("extra", 0, 7); D.k = gknots(in, "k", D.d, D.n, std::max(1, D.d)); }
	bool eq = in.one_in("equal", 4); for (int i = 0; i < D.n; i++) { D.p.push_back(gpt(in, "p")); D.w.push_back(eq ? 1 : in.num("w", .2, 5)); }
	if (D.n > 1 && in.one_in("closed", 3)) D.p.back() = D.p.front();
	return D;
}
static void put(NurbsCurve& c, const Data& D) { c.set_degree(D.d); c.set_points(D.p); c.set_weights(D.w); c.set_knots(D.k); }
static void junk(H::In& in, NurbsSurface& s) {
	if (in.b("fresh")) return; s.set_degree(in.i("jd", 0, 3), 2); s.set_points(vector<Point3>(20, Point3(1, 2, 3)), 5, 4); s.set_weights(vector<double>(20, 3.)); s.set_uniform_u(); s.set_uniform_v(); s.set_closed_u(in.b("jcu")); s.set_closed_v(in.b("jcv"));
}
static void sizes(const NurbsSurface& s, const char* what) {
	CHECK(s.points().size() == (size_t)s.nb_points_u() * s.nb_points_v() && s.weights().size() == s.points().size() && (int)s.knots_u().size() == s.nb_points_u() + s.degree_u() + 1 && (int)s.knots_v().size() == s.nb_points_v() + s.degree_v() + 1, "%s: sizes do not fit", what);
}
static bool isclosed(const Data& D) { return D.n > 1 && len(sub(D.p.front(), D.p.back())) < 1e-6; }
static bool ambiguous(const Data& D) { double d = len(sub(D.p.front(), D.p.back())); return d > 1e-7 && d < 1e-5; }
static void knots_are(const vector<double>& k, const vector<double>& w, const char* what) { CHECK(k.size() == w.size(), "%s: %zu knots instead of %zu", what, k.size(), w.size()); for (size_t i = 0; i < w.size(); i++) CHECK(std::fabs(k[i] - w[i]) < 1e-14, "%s: knot %zu is %g instead of %g", what, i, k[i], w[i]); }
static void curve_kept(const NurbsCurve& c, const Data& D) { CHECK(c.degree() == D.d && c.weights() == D.w && c.nb_points() == D.n, "the profile changed"); for (int i = 0; i < D.n; i++) CHECK(same(c.points()[i], D.p[i]), "the profile changed"); knots_are(c.knots(), D.k, "profile"); }
CASE(extrude) {
	Data D = gen(in); NurbsCurve c; put(c, D); NurbsSurface s; junk(in, s); Point3 dir = gpt(in, "dir"); NurbsExtrude e; CHECK(e.extrude(c, dir, s), "failed"); sizes(s, "extrusion");
	CHECK(s.degree_u() == D.d && s.degree_v() == 1 && s.nb_points_u() == D.n && s.nb_points_v() == 2, "degrees or counts"); knots_are(s.knots_u(), D.k, "u"); knots_are(s.knots_v(), { 0, 0, 1, 1 }, "v");
	if (!ambiguous(D)) CHECK(s.is_closed_u() == isclosed(D) && !s.is_closed_v(), "closed flags (%d,%d)", s.is_closed_u(), s.is_closed_v());
	for (int i = 0; i < 6; i++) { double u = gpar(in, "u", D.k), v = in.num("v", 0, 1); Point3 p; s.evaluate(u, v, p); Point3 r = add(bspline(D.k, D.d, D.p, D.w, u), mul(dir, v)); CHECK(len(sub(p, r)) < 1e-7 * (1 + len(r)), "point (%g,%g) is %s instead of %s", u, v, str(p).c_str(), str(r).c_str()); }
	curve_kept(c, D);
}
CASE(ruled) {
	Data D = gen(in), E = gen(in, &D); NurbsCurve c, e; put(c, D); put(e, E); NurbsSurface s; junk(in, s); NurbsRuled nr; CHECK(nr.create_ruled(c, e, s), "failed"); sizes(s, "ruled");
	CHECK(s.degree_u() == D.d && s.degree_v() == 1 && s.nb_points_u() == D.n && s.nb_points_v() == 2, "degrees or counts"); knots_are(s.knots_u(), D.k, "u"); knots_are(s.knots_v(), { 0, 0, 1, 1 }, "v");
	if (!ambiguous(D) && !ambiguous(E)) CHECK(s.is_closed_u() == (isclosed(D) && isclosed(E)) && !s.is_closed_v(), "closed flags (%d,%d)", s.is_closed_u(), s.is_closed_v());
	for (int i = 0; i < 6; i++) {
		double u = gpar(in, "u", D.k), v = in.num("v", 0, 1); Point3 p; s.evaluate(u, v, p); auto N = basis(D.k, D.d, u); LD wa = 0, wb = 0; for (int j = 0; j < D.n; j++) { wa += N[j] * D.w[j]; wb += N[j] * E.w[j]; }
		Point3 a = bspline(D.k, D.d, D.p, D.w, u), b = bspline(E.k, E.d, E.p, E.w, u); double x = (double)((1 - v) * wa), y = (double)(v * wb); Point3 r = mul(add(mul(a, x), mul(b, y)), 1 / (x + y));
		CHECK(len(sub(p, r)) < 1e-7 * (1 + len(r)), "point (%g,%g) is %s instead of %s", u, v, str(p).c_str(), str(r).c_str());
	}
	curve_kept(c, D); curve_kept(e, E);
}
CASE(revolve) {
	Data D = gen(in); NurbsCurve c; put(c, D); NurbsSurface s; junk(in, s); NurbsRevolve nr; CHECK(nr.revolve(c, s), "failed"); sizes(s, "revolution");
	CHECK(s.degree_v() == D.d && s.nb_points_v() == D.n, "degree or count along the profile"); knots_are(s.knots_v(), D.k, "v");
	if (!ambiguous(D)) CHECK(s.is_closed_u() && s.is_closed_v() == isclosed(D), "closed flags (%d,%d)", s.is_closed_u(), s.is_closed_v());
	Point3 p, q; double v0 = gpar(in, "v0", D.k); s.evaluate(0, v0, p); s.evaluate(1, v0, q); CHECK(near(p, q), "the turn does not close");
	vector<double> ang; double total = 0, last = 0; bool first = true;
	for (int i = 0; i <= 16; i++) {
		double u = i / 16., v = i < 4 ? gpar(in, "v", D.k) : v0; s.evaluate(u, v, p); Point3 r = bspline(D.k, D.d, D.p, D.w, v); double rr = std::hypot(r.x(), r.y()), sc = 1 + len(r);
		CHECK(std::fabs(p.z() - r.z()) < 1e-7 * sc, "height at (%g,%g) is %g instead of %g", u, v, p.z(), r.z()); CHECK(std::fabs(std::hypot(p.x(), p.y()) - rr) < 1e-7 * sc, "distance to the axis at (%g,%g) is %g instead of %g", u, v, std::hypot(p.x(), p.y()), rr);
		// every profile point is turned by the same angle
		s.evaluate(u, v0, p); r = bspline(D.k, D.d, D.p, D.w, v0); double r0 = std::hypot(r.x(), r.y()); if (r0 > 1e-2) { double a = std::atan2(p.y(), p.x()) - std::atan2(r.y(), r.x()); if (!first) { double d = a - last; while (d > M_PI) d -= 2 * M_PI; while (d < -M_PI) d += 2 * M_PI; total += d; } last = a; first = false;
			Point3 p2, r2 = D.p[0]; s.evaluate(u, 0, p2); double x = r2.x() * std::cos(a) - r2.y() * std::sin(a), y = r2.x() * std::sin(a) + r2.y() * std::cos(a); CHECK(std::hypot(p2.x() - x, p2.y() - y) < 1e-6 * (1 + len(r2)), "the profile is twisted at u=%g", u); }
	}
	if (!first && total != 0) CHECK(std::fabs(std::fabs(total) - 2 * M_PI) < 1e-6, "the turn covers %g", total);
	curve_kept(c, D);
}
