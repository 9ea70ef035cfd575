//@srcs Geometry.cpp NurbsCurve.cpp
#define private public
#define protected public
#include "NurbsCurve.h"
#undef private
#undef protected
#include "spline.h"
struct Data { int d, n; vector<double> k, w; vector<Point3> p; };
static Data gen(H::In& in) {
	Data D; D.d = in.i("degree", 0, 5); D.n = D.d + 1 + in.small("extra", 0, 8); D.k = gknots(in, "k", D.d, D.n, std::max(1, D.d));
	bool eq = in.one_in("equal", 4), zero = in.one_in("zeros", 3); for (int i = 0; i < D.n; i++) { D.p.push_back(gpt(in, "p")); D.w.push_back(eq ? 1 : zero && in.one_in("zero_w", 2) ? 0 : in.num("w", .2, 5)); }
	return D;
}
// the weights reaching the parameter: with zero weights the curve has no value where they all vanish
static bool valued(const Data& D, double u) { auto N = basis(D.k, D.d, u); LD d = 0; for (int i = 0; i < D.n; i++) d += N[i] * D.w[i]; return d > 1e-4; }
static void put(H::In& in, NurbsCurve& c, const Data& D) {
	bool dfirst = in.b("degree_first"); if (dfirst) c.set_degree(D.d);
	c.set_points(D.p); c.set_knots(D.k);
	bool one = true; for (double w : D.w) one = one && w == 1;
	if (one) c.set_equals_weights(); else c.set_weights(D.w);
	if (!dfirst) c.set_degree(D.d);
}
CASE(value) {
	NurbsCurve c; int rounds = in.i("rounds", 1, 3);
	for (int r = 0; r < rounds; r++) {
		if (in.one_in("clear", 4)) c.clear();
		Data D = gen(in); put(in, c, D);
		NurbsCurve other; if (in.b("copy")) { other = c; NurbsCurve tmp(c); c = tmp; }
		for (int e = in.i("evals", 1, 6); e > 0; e--) {
			double u = gpar(in, "u", D.k); Point3 out = gpt(in, "junk"); c.evaluate(u, out); if (!valued(D, u)) continue;
			Point3 ref = bspline(D.k, D.d, D.p, D.w, u);
			CHECK(len(sub(out, ref)) < 1e-8 * (1 + len(ref)), "degree %d, %d points, u=%.17g: %s instead of %s", D.d, D.n, u, str(out).c_str(), str(ref).c_str());
			if (u == 0) CHECK(near(out, D.p.front()), "start is %s", str(out).c_str());
			if (u == 1) CHECK(near(out, D.p.back()), "end is %s", str(out).c_str());
			double lo[3] = { 1e99, 1e99, 1e99 }, hi[3] = { -1e99, -1e99, -1e99 }; auto N = basis(D.k, D.d, u);
			for (int i = 0; i < D.n; i++) if (N[i] > 0 && D.w[i] > 0) for (int a = 0; a < 3; a++) { double v = a == 0 ? D.p[i].x() : a == 1 ? D.p[i].y() : D.p[i].z(); lo[a] = std::min(lo[a], v); hi[a] = std::max(hi[a], v); }
			double o[3] = { out.x(), out.y(), out.z() }; for (int a = 0; a < 3; a++) CHECK(o[a] > lo[a] - 1e-9 && o[a] < hi[a] + 1e-9, "leaves the box of its active points");
		}
		CHECK(c.degree() == D.d && c.nb_points() == D.n && c.knots().size() == D.k.size() && c.weights() == D.w, "evaluation changed the curve");
		for (size_t i = 0; i < D.k.size(); i++) CHECK(std::fabs(c.knots()[i] - D.k[i]) < 1e-15, "evaluation changed knot %zu", i);
		for (int i = 0; i < D.n; i++) CHECK(same(c.points()[i], D.p[i]), "evaluation changed point %d", i);
	}
}
CASE(common_factor) {
	Data D = gen(in), E = D; double f = in.num("f", .1, 50); double s = in.num("s", -3, 3); Point3 t = gpt(in, "t");
	for (auto& w : E.w) w *= f; for (auto& p : E.p) p = add(Point3(s * p.y(), p.z() - p.x(), p.x() + s * p.z()), t);
	NurbsCurve a, b; put(in, a, D); put(in, b, E); double u = gpar(in, "u", D.k); if (!valued(D, u)) SKIP(); Point3 p, q; a.evaluate(u, p); b.evaluate(u, q);
	Point3 w = add(Point3(s * p.y(), p.z() - p.x(), p.x() + s * p.z()), t); CHECK(len(sub(q, w)) < 1e-8 * (1 + len(w)), "transformed curve: %s instead of %s", str(q).c_str(), str(w).c_str());
}
CASE(polyline) {
	Data D = gen(in); NurbsCurve c; for (double& w : D.w) if (w == 0) w = 1; put(in, c, D); vector<Point3> l; if (in.b("junk")) l.push_back(Point3(9, 9, 9)); c.to_polyline(l);
	CHECK((int)l.size() >= D.n * 10 && (int)l.size() <= D.n * 10 + 1, "%zu points for %d control points", l.size(), D.n);
	for (size_t i = 0; i < l.size(); i++) { double u = std::min(1., i / (D.n * 10.)); Point3 a = bspline(D.k, D.d, D.p, D.w, u), b = bspline(D.k, D.d, D.p, D.w, std::max(0., u - 1e-9)), e = bspline(D.k, D.d, D.p, D.w, std::min(1., u + 1e-9)); CHECK(len(sub(l[i], a)) < 1e-5 || len(sub(l[i], b)) < 1e-5 || len(sub(l[i], e)) < 1e-5, "polyline point %zu is off the curve", i); }
}
CASE(cleared) {
	Data D = gen(in); NurbsCurve c; put(in, c, D); c.clear(); CHECK(c.degree() == 0 && c.nb_points() == 0 && c.points().empty() && c.knots().empty() && c.weights().empty(), "clear left something behind");
	Data E = gen(in); put(in, c, E); double u = gpar(in, "u", E.k); if (!valued(E, u)) SKIP(); Point3 p; c.evaluate(u, p); Point3 r = bspline(E.k, E.d, E.p, E.w, u); CHECK(len(sub(p, r)) < 1e-8 * (1 + len(r)), "after clear: %s instead of %s", str(p).c_str(), str(r).c_str());
}
