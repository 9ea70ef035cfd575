//@srcs Geometry.cpp
#include "geo.h"

static void plane_ok(const Plane3& p, const Point3& a, const Point3& b, const Point3& c)
{
	Point3 o = crs(sub(b, a), sub(c, a)); o = mul(o, 1 / len(o));
	double sc = 1 + len(a) + len(b) + len(c);
	NEARP(p.normal(), o, "plane normal");
	double A, B, C, D; p.get(A, B, C, D);
	CHECK(same(p.normal(), Point3(A, B, C)), "get() and normal() disagree");
	CHECK(std::fabs(p.distance_to(a)) < 1e-8 * sc && std::fabs(p.distance_to(b)) < 1e-8 * sc && std::fabs(p.distance_to(c)) < 1e-8 * sc, "plane misses one of its points: %g %g %g", p.distance_to(a), p.distance_to(b), p.distance_to(c));
}
static bool gen(H::In& in, Point3& a, Point3& b, Point3& c)
{
	if (in.b("int")) { a = gip(in, "a", -4, 4); b = gip(in, "b", -4, 4); c = gip(in, "c", -4, 4); }
	else { a = gpt(in, "a"); b = gpt(in, "b"); c = gpt(in, "c"); }
	Point3 o = crs(sub(b, a), sub(c, a));
	return len(o) > 1e-2 * (len(sub(b, a)) * len(sub(c, a))) && len(o) > 1e-3;
}
CASE(construction)
{
	Point3 a, b, c; if (!gen(in, a, b, c)) SKIP();
	Plane3 p(a, b, c); plane_ok(p, a, b, c);
	Plane3 q(Triangle3(a, b, c)); plane_ok(q, a, b, c);
	Plane3 r(Point3(1, 2, 3), Point3(4, 7, 3), Point3(0, 0, 1)); r.compute_using(a, b, c); plane_ok(r, a, b, c);
	Plane3 s; s.compute_using(Triangle3(a, b, c)); plane_ok(s, a, b, c);
	// orientation: a point above is positive
	Point3 o = crs(sub(b, a), sub(c, a)); double h = in.num("h");
	double d = p.distance_to(add(a, mul(o, h / len(o)))); CLOSE(d, h, "signed distance along the normal");
}
CASE(distance)
{
	Point3 a, b, c; if (!gen(in, a, b, c)) SKIP();
	const Plane3 p(a, b, c); Point3 q = gpt(in, "q"); double u = in.num("u"), v = in.num("v");
	Point3 o = crs(sub(b, a), sub(c, a)); o = mul(o, 1 / len(o));
	CLOSE(p.distance_to(q), dot(o, sub(q, a)), "signed distance");
	Point3 q2 = add(q, add(mul(sub(b, a), u), mul(sub(c, a), v)));
	CHECK(H::close(p.distance_to(q2), p.distance_to(q), len(q2)), "distance changes within a parallel plane");
	Point3 pr, q0 = q; p.project_point(q, pr);
	NEARP(pr, sub(q, mul(o, dot(o, sub(q, a)))), "projection"); CHECK(same(q, q0), "projected point's source changed");
	p.project_point(q, q); NEARP(q, pr, "in-place projection");
	plane_ok(p, a, b, c);
}
CASE(segments)
{
	Point3 a, b, c; if (!gen(in, a, b, c)) SKIP();
	const Plane3 p(a, b, c); Point3 s1 = in.b("int2") ? gip(in, "s", -4, 4) : gpt(in, "s"), s2 = in.b("int3") ? gip(in, "e", -4, 4) : gpt(in, "e");
	if (in.one_in("tiny", 5)) s2 = add(s1, mul(s2, 1e-3));
	Point3 o = crs(sub(b, a), sub(c, a)); double d1 = dot(o, sub(s1, a)), d2 = dot(o, sub(s2, a)); double L = len(o);
	d1 /= L; d2 /= L;
	if (std::fabs(d1) < 1e-8 || std::fabs(d2) < 1e-8) SKIP();
	Point3 out(77, 78, 79); const Segment3 s(s1, s2); bool r = p.intersect_with(s, out);
	CHECK(r == (d1 * d2 < 0), "segment ends at signed distances %g and %g but cut reported: %d", d1, d2, (int)r);
	CHECK(same(s.p1(), s1) && same(s.p2(), s2), "segment changed");
	if (!r) { CHECK(same(out, Point3(77, 78, 79)), "point written without a cut"); return; }
	double t = d1 / (d1 - d2); NEARP(out, add(s1, mul(sub(s2, s1), t)), "cut point");
}
// exact coincidences: axis planes with integer data are computed without rounding
CASE(touching)
{
	int ax = in.i("axis", 0, 2), h = in.i("h", -2, 2); Point3 P[3];
	double e[3][2] = { {0, 0}, {2, 0}, {0, 2} };
	auto mk = [&](double u, double v, double w) { return ax == 0 ? Point3(w, u, v) : ax == 1 ? Point3(v, w, u) : Point3(u, v, w); };
	for (int i = 0; i < 3; i++) P[i] = mk(e[i][0], e[i][1], h);
	const Plane3 p(P[0], P[1], P[2]);
	int w1 = in.i("w1", -3, 3), w2 = in.i("w2", -3, 3); Point3 s1 = mk(in.i("u1", -3, 3), in.i("v1", -3, 3), w1), s2 = mk(in.i("u2", -3, 3), in.i("v2", -3, 3), w2);
	CHECK((p.distance_to(s1) == 0) == (w1 == h), "distance zero exactly on the plane");
	Point3 out; bool r = p.intersect_with(Segment3(s1, s2), out);
	CHECK(r == ((w1 - h) * (w2 - h) < 0), "segment from height %d to %d, plane at %d: cut reported %d", w1, w2, h, (int)r);
}
CASE(triangles)
{
	int ax = in.i("axis", 0, 2), h = in.i("h", -2, 2); Point3 P[3], Q[3];
	double e[3][2] = { {0, 0}, {2, 0}, {0, 2} }; int w[3]; bool up = false, down = false;
	auto mk = [&](double u, double v, double w) { return ax == 0 ? Point3(w, u, v) : ax == 1 ? Point3(v, w, u) : Point3(u, v, w); };
	for (int i = 0; i < 3; i++) { P[i] = mk(e[i][0], e[i][1], h); w[i] = in.i("w", -3, 3); Q[i] = mk(in.i("u", -3, 3), in.i("v", -3, 3), w[i]); up |= w[i] > h; down |= w[i] < h; }
	const Triangle3 t(Q[0], Q[1], Q[2]); bool r = t.cutted_by(Plane3(P[0], P[1], P[2]));
	CHECK(r == (up && down), "triangle with corners at heights %d %d %d, plane at %d: cut reported %d", w[0], w[1], w[2], h, (int)r);
	for (int i = 0; i < 3; i++) CHECK(same(i == 0 ? t.p1() : i == 1 ? t.p2() : t.p3(), Q[i]), "triangle changed");
}
