//@srcs Geometry.cpp NurbsCurve.cpp
#define private public
#define protected public
#include "NurbsCurve.h"
#undef private
#undef protected
#include "spline.h"
struct Data { int d, n; vector<double> k, w; vector<Point3> p; };
static Data gen(H::In& in, int dmax, bool seq = false) {
	Data D; D.d = in.i("degree", 0, dmax); D.n = D.d + 1 + in.small("extra", 0, 8); if (seq && D.d == 0) D.n = 1; D.k = gknots(in, "k", D.d, D.n, std::max(1, D.d));
	bool eq = in.one_in("equal", 4); for (int i = 0; i < D.n; i++) { D.p.push_back(gpt(in, "p")); D.w.push_back(eq ? 1 : in.num("w", .2, 5)); }
	return D;
}
static void put(NurbsCurve& c, const Data& D) { c.set_degree(D.d); c.set_points(D.p); c.set_weights(D.w); c.set_knots(D.k); }
static void same_shape(H::In& in, NurbsCurve& c, const Data& D, const char* what) {
	for (int e = 0; e < 12; e++) {
		double u = e < 4 ? gpar(in, "u", D.k) : e == 4 ? 0 : e == 5 ? 1 : in.uni("u", 0, 1); Point3 r = bspline(D.k, D.d, D.p, D.w, u), p; c.evaluate(u, p);
		CHECK(len(sub(p, r)) < 1e-6 * (1 + len(r)), "%s: point at %.17g is %s instead of %s (degree was %d, %d points)", what, u, str(p).c_str(), str(r).c_str(), D.d, D.n);
	}
}
static void consistent(NurbsCurve& c, const char* what) {
	CHECK(c.knots().size() == c.points().size() + c.degree() + 1 && c.weights().size() == c.points().size() && c.nb_points() == (int)c.points().size(), "%s: %zu knots, %zu points, %zu weights, degree %d", what, c.knots().size(), c.points().size(), c.weights().size(), c.degree());
	CHECK(std::is_sorted(c.knots().begin(), c.knots().end()), "%s: knots are not sorted", what);
}
static int mult(const vector<double>& k, double u) { return (int)std::count(k.begin(), k.end(), u); }
static double pick(H::In& in, const NurbsCurve& c, bool inside) {
	double u = in.one_in("at_knot", 3) ? c.knots()[in.i("at", 0, (int)c.knots().size() - 1)] : in.one_in("end", 8) ? in.b("which") : in.uni("u", 0, 1);
	// stay where later refinements are defined: interior parameters of multiplicity below the degree
	if (inside && (u <= 0 || u >= 1 || mult(c.knots(), u) >= c.degree())) u = -1;
	return u;
}
static void insert(NurbsCurve& c, double u) {
	vector<double> k = c.knots(); int n = c.nb_points(), d = c.degree(); c.insert_knot(u); consistent(c, "insertion");
	k.insert(std::upper_bound(k.begin(), k.end(), u), u); CHECK(c.nb_points() == n + 1 && c.degree() == d, "insertion: %d points, degree %d", c.nb_points(), c.degree());
	for (size_t i = 0; i < k.size(); i++) CHECK(std::fabs(c.knots()[i] - k[i]) < 1e-14, "insertion: knot %zu is %g instead of %g", i, c.knots()[i], k[i]);
}
CASE(insertion) {
	Data D = gen(in, 5); NurbsCurve c; put(c, D); int m = in.i("n", 1, 3);
	for (int i = 0; i < m; i++) { double u = pick(in, c, i + 1 < m); if (u < 0) continue; if (D.d == 0 && mult(D.k, u) > 0) continue; insert(c, u); same_shape(in, c, D, "insertion"); }
}
static bool elevate(NurbsCurve& c) {
	vector<double> k = c.knots(), e; vector<Point3> P = c.points(); vector<double> w = c.weights(); int d = c.degree(); bool r = c.degree_elevation();
	CHECK(r == (d <= 2), "elevation of degree %d returned %d", d, r); consistent(c, "elevation");
	for (size_t i = 0; i < k.size(); i++) { e.push_back(k[i]); if (r && (i + 1 == k.size() || k[i] != k[i + 1])) e.push_back(k[i]); }
	CHECK(c.degree() == d + r && c.knots().size() == e.size(), "elevation: degree %d, %zu knots instead of %zu", c.degree(), c.knots().size(), e.size());
	for (size_t i = 0; i < e.size(); i++) CHECK(std::fabs(c.knots()[i] - e[i]) < 1e-14, "elevation: knot %zu is %g instead of %g", i, c.knots()[i], e[i]);
	if (!r) { CHECK(c.weights() == w && c.points().size() == P.size(), "refused elevation changed the curve"); for (size_t i = 0; i < P.size(); i++) CHECK(same(c.points()[i], P[i]), "refused elevation moved point %zu", i); }
	return r;
}
CASE(elevation) { Data D = gen(in, 4); NurbsCurve c; put(c, D); elevate(c); same_shape(in, c, D, "elevation"); }
CASE(sequences) {
	Data D = gen(in, 3, true); NurbsCurve c; put(c, D);
	for (int i = in.i("n", 1, 6); i > 0; i--) {
		if (in.one_in("elevate", 3)) elevate(c); else { double u = pick(in, c, true); if (u < 0) continue; insert(c, u); }
		if (in.one_in("copy", 4)) { NurbsCurve t(c); c = t; }
		same_shape(in, c, D, "sequence");
	}
}
