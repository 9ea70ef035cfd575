//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp NurbsCurve.cpp NurbsSurface.cpp
#define private public
#define protected public
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#undef private
#undef protected
#include "geo.h"
using std::vector;
static vector<double> clamped(H::In& in, int deg, int n) {
	vector<double> k; double x = 0; for (int i = 0; i <= deg; i++) k.push_back(0);
	for (int i = deg + 1; i < n; i++) { if (!in.one_in("same", 4)) x += in.uni("step", .01, 1); k.push_back(x); }
	x += in.uni("last", .01, 1); for (int i = 0; i <= deg; i++) k.push_back(x);
	for (auto& v : k) v /= x; return k;
}
static void scaled(const vector<double>& k, const vector<double>& got, const char* who) {
	CHECK(got.size() == k.size(), "%s: %zu knots from %zu", who, got.size(), k.size());
	double lo = *std::min_element(k.begin(), k.end()), hi = *std::max_element(k.begin(), k.end());
	for (size_t i = 0; i < k.size(); i++) CHECK(std::fabs(got[i] - (k[i] - lo) / (hi - lo)) < 1e-9, "%s: knot %zu is %g instead of %g", who, i, got[i], (k[i] - lo) / (hi - lo));
}
CASE(setting) {
	int n = in.small("n", 2, 30); vector<double> k; double off = in.one_in("shift", 2) ? in.num("off", -1e3, 1e3) : 0, sc = in.one_in("tiny", 4) ? 1e-3 : in.num("sc", .5, 200);
	int mode = in.i("mode", 0, 2);
	if (mode == 0) { int d = in.i("d", 0, 4); k = clamped(in, d, d + 1 + n); for (auto& v : k) v = off + sc * v; }
	else for (int i = 0; i < n; i++) k.push_back(off + sc * in.num("k", -3, 3));
	double lo = *std::min_element(k.begin(), k.end()), hi = *std::max_element(k.begin(), k.end()); if (!(hi - lo > 1e-5)) SKIP();
	vector<double> before = k;
	NurbsCurve c; NurbsSurface s; vector<double> other = { 2, 3, 5 }; scaled(other, (s.set_knots_v(other), s.knots_v()), "other direction");
	c.set_knots(k); s.set_knots_u(k); scaled(k, c.knots(), "curve"); scaled(k, s.knots_u(), "surface u"); scaled(other, s.knots_v(), "v after u");
	s.set_knots_u(other); s.set_knots_v(k); scaled(k, s.knots_v(), "surface v"); scaled(other, s.knots_u(), "u after v");
	c.set_knots(other); scaled(other, c.knots(), "curve, second time"); c.set_knots(c.knots()); scaled(other, c.knots(), "curve, its own knots");
	CHECK(k == before, "argument changed");
}
CASE(uniform) {
	int d = in.i("d", 0, 6), n = d + 1 + in.small("n", 0, 20), d2 = in.i("d2", 0, 4), n2 = d2 + 1 + in.small("n2", 0, 9);
	auto check = [&](const vector<double>& k, int d, int n, const char* who) {
		CHECK((int)k.size() == n + d + 1, "%s: %zu knots for degree %d and %d points", who, k.size(), d, n);
		for (int i = 0; i < (int)k.size(); i++) { double w = i <= d ? 0 : i >= n ? 1 : (i - d) / (double)(n - d); CHECK(std::fabs(k[i] - w) < 1e-12, "%s: knot %d of degree %d, %d points is %g", who, i, d, n, k[i]); }
	};
	NurbsCurve c; c.set_degree(d); c.set_points(vector<Point3>(n)); c.set_uniform(); check(c.knots(), d, n, "curve");
	NurbsSurface s; s.set_degree(d, d2); s.set_points(vector<Point3>(n * n2), n, n2); s.set_uniform_u(); s.set_uniform_v();
	check(s.knots_u(), d, n, "surface u"); check(s.knots_v(), d2, n2, "surface v");
	s.set_uniform_u(); check(s.knots_u(), d, n, "surface u again"); check(s.knots_v(), d2, n2, "surface v kept");
}
CASE(span) {
	int d = in.i("d", 0, 5), n = d + 1 + in.small("n", 0, 25); vector<double> k = clamped(in, d, n);
	double t; int m = in.i("where", 0, 5);
	if (m == 0) t = k[in.i("at", 0, (int)k.size() - 1)]; else if (m == 1) t = in.num("t", -3, 4); else if (m == 2) t = in.b("end"); else if (m == 3) t = std::nextafter(k[in.i("at", 0, (int)k.size() - 1)], in.b("up") ? 9 : -9); else t = in.num("t", 0, 1);
	double x = t < 0 ? 0 : t > 1 ? 1 : t; int want = -1, cnt = 0;
	for (int i = 0; i + 1 < (int)k.size(); i++) if (x < 1 ? (k[i] <= x && x < k[i + 1]) : (k[i] < 1 && k[i + 1] == 1)) { want = i; cnt++; }
	CHECK(cnt == 1, "harness: %d spans", cnt);
	int a = NurbsCurve::find_knot_span(k, t), b = NurbsSurface::find_knot_span(k, t);
	CHECK(a == want, "curve: span %d instead of %d for %.17g", a, want, t); CHECK(b == want, "surface: span %d instead of %d for %.17g", b, want, t);
	CHECK(want >= d && want < n, "harness: span out of range");
}
