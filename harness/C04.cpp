//@srcs Geometry.cpp
#include "geo.h"

// the box is observed through intersect_with: a degenerate probe box at a point
static bool has(const BoundingBox3& b, const Point3& p) { BoundingBox3 q; q.add(p); bool r = b.intersect_with(q); CHECK(r == q.intersect_with(b), "overlap not symmetric"); return r; }
CASE(histories)
{
	int n = in.small("n", 1, 12); std::vector<Point3> v; bool I = in.b("int");
	for (int i = 0; i < n; i++) v.push_back(I ? gip(in, "p", -4, 4) : gpt(in, "p"));
	if (in.one_in("mono", 4)) std::sort(v.begin(), v.end(), [](const Point3& a, const Point3& b) { return a._x > b._x; });
	BoundingBox3 b; double lo[3], hi[3];
	for (int i = 0; i < n; i++) {
		const Point3 p = v[i]; b.add(p); double c[3] = { p._x, p._y, p._z };
		for (int k = 0; k < 3; k++) { lo[k] = i ? std::min(lo[k], c[k]) : c[k]; hi[k] = i ? std::max(hi[k], c[k]) : c[k]; }
		// tightness: just inside is in, just outside is out, on every axis and both sides
		double m[3] = { (lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, (lo[2] + hi[2]) / 2 };
		for (int k = 0; k < 3; k++) for (int s = 0; s < 2; s++) {
			double t[3] = { m[0], m[1], m[2] }; t[k] = s ? hi[k] : lo[k];
			CHECK(has(b, Point3(t[0], t[1], t[2])), "bound %d of axis %d is not part of the box after %d points", s, k, i + 1);
			t[k] = s ? std::nextafter(hi[k], 1e300) : std::nextafter(lo[k], -1e300);
			CHECK(!has(b, Point3(t[0], t[1], t[2])), "box reaches beyond bound %d of axis %d after %d points", s, k, i + 1);
		}
	}
}
CASE(pairs)
{
	double A[2][3], B[2][3]; BoundingBox3 a, b; int n = in.i("n", 1, 4), m = in.i("m", 1, 4);
	auto fill = [&](BoundingBox3& x, double M[2][3], int n) { for (int i = 0; i < n; i++) { Point3 p = gip(in, "p", -3, 3); x.add(p); double c[3] = { p._x, p._y, p._z }; for (int k = 0; k < 3; k++) { M[0][k] = i ? std::min(M[0][k], c[k]) : c[k]; M[1][k] = i ? std::max(M[1][k], c[k]) : c[k]; } } };
	fill(a, A, n); fill(b, B, m);
	bool e = true; for (int k = 0; k < 3; k++) e &= std::max(A[0][k], B[0][k]) <= std::min(A[1][k], B[1][k]);
	CHECK(a.intersect_with(b) == e, "boxes x[%g %g] y[%g %g] z[%g %g] and x[%g %g] y[%g %g] z[%g %g]: overlap reported %d", A[0][0], A[1][0], A[0][1], A[1][1], A[0][2], A[1][2], B[0][0], B[1][0], B[0][1], B[1][1], B[0][2], B[1][2], (int)a.intersect_with(b));
	CHECK(b.intersect_with(a) == e, "overlap not symmetric");
}
CASE(triangles)
{
	Point3 P[3], Q[3]; for (auto& p : P) p = gip(in, "p", -4, 4); for (auto& p : Q) p = gip(in, "q", -4, 4);
	BoundingBox3 a(Triangle3(P[0], P[1], P[2])), b(Triangle3(Q[0], Q[1], Q[2]));
	bool e = true; for (int k = 0; k < 3; k++) { auto g = [&](const Point3& p) { return k == 0 ? p._x : k == 1 ? p._y : p._z; };
		e &= std::max(std::min({ g(P[0]), g(P[1]), g(P[2]) }), std::min({ g(Q[0]), g(Q[1]), g(Q[2]) })) <= std::min(std::max({ g(P[0]), g(P[1]), g(P[2]) }), std::max({ g(Q[0]), g(Q[1]), g(Q[2]) })); }
	CHECK(a.intersect_with(b) == e && b.intersect_with(a) == e, "boxes of two triangles");
}
