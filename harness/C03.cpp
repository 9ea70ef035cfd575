//@srcs Geometry.cpp
#include "geo.h"

// integer data: every product below is exact in double precision
CASE(coplanar_integer)
{
	Point3 a = gip(in, "a", -3, 3), e1 = gip(in, "e1", -3, 3), e2 = gip(in, "e2", -3, 3);
	Point3 b = add(a, mul(e1, 4)), c = add(a, mul(e2, 4));
	if (len(crs(e1, e2)) == 0) SKIP();
	int v = in.i("v4", -6, 10), w = in.i("w4", -6, 10);
	Point3 p = add(a, add(mul(e1, v), mul(e2, w)));
	bool expect = v >= 0 && w >= 0 && v + w <= 4;
	Triangle3 t0(a, b, c);
	if (in.b("moved")) { // asked before it had these corners
		t0 = Triangle3(add(a, e1), add(b, e2), c); t0.contains(p); int k = in.i("order", 0, 2);
		for (int i = 0; i < 3; i++) { int x = (i + k) % 3; if (x == 0) t0.set_p1(a); else if (x == 1) t0.set_p2(b); else t0.set_p3(c); if (in.b("asked")) t0.contains(p); }
	}
	const Triangle3 t = t0;
	CHECK(t.contains(p) == expect, "triangle %s %s %s, point with barycentric coordinates %g %g %g reported %s", str(a).c_str(), str(b).c_str(), str(c).c_str(), (4 - v - w) / 4., v / 4., w / 4., t.contains(p) ? "inside" : "outside");
	CHECK(same(t.p1(), a) && same(t.p2(), b) && same(t.p3(), c), "triangle changed");
}
CASE(coplanar_real)
{
	Point3 a = gpt(in, "a"), b = gpt(in, "b"), c = gpt(in, "c");
	Point3 n = crs(sub(b, a), sub(c, a)); if (len(n) < 1e-2 * len(sub(b, a)) * len(sub(c, a)) || len(n) < 1e-3) SKIP();
	double v = in.uni("v", -2, 3), w = in.uni("w", -2, 3), u = 1 - v - w;
	if (std::min({ std::fabs(u), std::fabs(v), std::fabs(w) }) < 1e-6) SKIP();
	Point3 p = add(a, add(mul(sub(b, a), v), mul(sub(c, a), w)));
	bool expect = u > 0 && v > 0 && w > 0;
	CHECK(Triangle3(a, b, c).contains(p) == expect, "point with barycentric coordinates %g %g %g", u, v, w);
}
CASE(segment)
{
	Point3 a = gpt(in, "a"), b = gpt(in, "b"), c = gpt(in, "c");
	Point3 n = crs(sub(b, a), sub(c, a)); if (len(n) < 1e-2 * len(sub(b, a)) * len(sub(c, a)) || len(n) < 1e-3) SKIP();
	n = mul(n, 1 / len(n));
	double v = in.uni("v", -1, 2), w = in.uni("w", -1, 2), u = 1 - v - w;
	if (std::min({ std::fabs(u), std::fabs(v), std::fabs(w) }) < 1e-5) SKIP();
	Point3 q = add(a, add(mul(sub(b, a), v), mul(sub(c, a), w)));      // point of the plane
	Point3 d = gpt(in, "d"); double dn = dot(d, n); if (std::fabs(dn) < 1e-2 * len(d) || std::fabs(dn) < 1e-3) SKIP();
	double t1 = in.uni("t1", -1, 1), t2 = in.uni("t2", -1, 1); if (std::fabs(t1) < 1e-6 || std::fabs(t2) < 1e-6) SKIP();
	Point3 s1 = add(q, mul(d, t1)), s2 = add(q, mul(d, t2));
	bool expect = t1 * t2 < 0 && u > 0 && v > 0 && w > 0;
	Point3 out; const Triangle3 t(a, b, c); const Segment3 s(s1, s2); bool r = t.intersect_with(s, out);
	CHECK(r == expect, "segment crossing: barycentric %g %g %g, end parameters %g %g, reported %d", u, v, w, t1, t2, (int)r);
	if (r) NEARP(out, q, "crossing point");
	CHECK(same(s.p1(), s1) && same(s.p2(), s2), "segment changed");
}
static int hit(const Point3& a, const Point3& b, const Point3& c, const Point3& p, const Point3& q)
{
	// 1 clearly crosses, 0 clearly not, -1 too close to tell
	Point3 n = crs(sub(b, a), sub(c, a)); double L = len(n); n = mul(n, 1 / L);
	double d1 = dot(n, sub(p, a)), d2 = dot(n, sub(q, a));
	if (std::fabs(d1) < 1e-6 || std::fabs(d2) < 1e-6) return -1;
	if (d1 * d2 > 0) return 0;
	Point3 x = add(p, mul(sub(q, p), d1 / (d1 - d2)));
	double w0 = dot(crs(sub(b, a), sub(x, a)), n) / L, w1 = dot(crs(sub(c, b), sub(x, b)), n) / L, w2 = dot(crs(sub(a, c), sub(x, c)), n) / L;
	double m = std::min({ w0, w1, w2 });
	return m > 1e-6 ? 1 : m < -1e-6 ? 0 : -1;
}
CASE(overlap)
{
	bool I = in.b("int"); double k = in.num("spread", 0.5, 4);
	Point3 P[3], Q[3];
	for (auto& p : P) p = I ? gip(in, "p", -2, 2) : gpt(in, "p", -3, 3);
	for (auto& p : Q) p = I ? gip(in, "q", -2, 2) : mul(gpt(in, "q", -1, 1), k);
	auto deg = [](Point3* p) { return len(crs(sub(p[1], p[0]), sub(p[2], p[0]))) < 1e-2; };
	if (deg(P) || deg(Q)) SKIP();
	const Triangle3 A(P[0], P[1], P[2]), B(Q[0], Q[1], Q[2]);
	bool r = A.intersect_with(B), r2 = B.intersect_with(A);
	CHECK(r == r2, "overlap of two triangles: %d when the first is asked, %d when the second is", (int)r, (int)r2);
	bool any = false, unsure = false;
	for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) { int h1 = hit(P[0], P[1], P[2], Q[i], Q[j]), h2 = hit(Q[0], Q[1], Q[2], P[i], P[j]); any |= h1 == 1 || h2 == 1; unsure |= h1 < 0 || h2 < 0; }
	if (any) { if (!unsure) CHECK(r, "edges cross but no overlap reported"); }
	else if (!unsure) CHECK(!r, "overlap reported but no edge crosses");
	int np = 0, nn = 0; Plane3 pl(B); for (auto& p : P) { double d = pl.distance_to(p); np += d > 0; nn += d < 0; }
	CHECK(A.cutted_by(pl) == (np && nn), "cutted_by with %d corners above, %d below", np, nn);
}
