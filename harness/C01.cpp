//@srcs Geometry.cpp
#include "geo.h"

CASE(operators)
{
	Point3 a = gpt(in, "a", -1e3, 1e3), b = gpt(in, "b", -1e3, 1e3); double d = in.num("d");
	const Point3 a0 = a, b0 = b;
	NEARP(a + b, add(a0, b0), "sum");
	NEARP(a - b, sub(a0, b0), "difference");
	NEARP(a * d, mul(a0, d), "scaling");
	if (std::fabs(d) > 1e-6) NEARP(a / d, mul(a0, 1 / d), "division");
	CLOSE(a.dot_product(b), dot(a0, b0), "dot product");
	NEARP(a.cross_product(b), crs(a0, b0), "cross product");
	CLOSE(a.distance_square(b), dot(sub(a0, b0), sub(a0, b0)), "squared distance");
	CLOSE(a.norm_square(), dot(a0, a0), "squared norm");
	CLOSE(a.norm(), len(a0), "norm");
	CHECK(same(a, a0) && same(b, b0), "an operand was changed");
	Point3 t = a; Point3& r1 = (t += b); NEARP(t, add(a0, b0), "+="); CHECK(&r1 == &t, "+= must return the object");
	t = a; Point3& r2 = (t -= b); NEARP(t, sub(a0, b0), "-="); CHECK(&r2 == &t, "-= must return the object");
	t = a; Point3& r3 = (t *= d); NEARP(t, mul(a0, d), "*="); CHECK(&r3 == &t, "*= must return the object");
	if (std::fabs(d) > 1e-6) { t = a; t /= d; NEARP(t, mul(a0, 1 / d), "/="); }
	t = a; t += t; NEARP(t, mul(a0, 2), "+= itself");
	t = a; t -= t; NEARP(t, Point3(0, 0, 0), "-= itself");
	CHECK(same(a, a0) && same(b, b0), "an operand was changed");
	CHECK(a.x() == a0._x && a.y() == a0._y && a.z() == a0._z, "accessors");
	t = a; t.x() = 1; t.y() = 2; t.z() = 3; CHECK(same(t, Point3(1, 2, 3)), "mutable accessors");
	const Point3 o; CHECK(same(o, Point3(0, 0, 0)), "default point");
	CHECK(o.x() == 0 && o.y() == 0 && o.z() == 0, "const accessors");
}
CASE(normalising)
{
	Point3 a = gpt(in, "a", -1e3, 1e3); double k = std::pow(10., in.i("scale", -9, 6)); a = mul(a, k);
	if (len(a) < 1e-12) SKIP();
	const Point3 a0 = a;
	Point3 n = a.normalized();
	CHECK(same(a, a0), "normalized() changed its operand");
	CLOSE(len(n), 1, "length of the normalised vector");
	NEARP(n, mul(a0, 1 / len(a0)), "direction of the normalised vector");
	a.normalize(); NEARP(a, n, "normalize()");
}
CASE(triangles)
{
	Point3 a = gpt(in, "a"), b = gpt(in, "b"), c = gpt(in, "c");
	if (in.one_in("far", 3)) { Point3 d = gpt(in, "d", -1e4, 1e4); a += d; b += d; c += d; }
	if (in.one_in("small", 4)) { double k = std::pow(10., in.i("k", -6, -1)); a = mul(a, k); b = mul(b, k); c = mul(c, k); }
	const Triangle3 t(a, b, c);
	Point3 o = crs(sub(b, a), sub(c, a));
	CHECK(same(t.p1(), a) && same(t.p2(), b) && same(t.p3(), c), "corners");
	Point3 got = t.orthogonal(); double sc = len(sub(b, a)) * len(sub(c, a));
	CHECK(len(sub(got, o)) <= 1e-7 * sc + 1e-300, "orthogonal vector %s vs %s", str(got).c_str(), str(o).c_str());
	CHECK(std::fabs(t.surface() - len(o) / 2) <= 1e-7 * sc, "area %g vs %g", t.surface(), len(o) / 2);
	if (len(o) > 1e-4 * sc) { Point3 n = t.normal(); NEARP(n, mul(o, 1 / len(o)), "unit normal"); }
	CHECK(same(t.p1(), a) && same(t.p2(), b) && same(t.p3(), c), "triangle changed by a query");
	Triangle3 u = t; Point3 q = gpt(in, "q");
	u.set_p1(q); CHECK(same(u.p1(), q) && same(u.p2(), b) && same(u.p3(), c), "set_p1");
	u = t; u.set_p2(q); CHECK(same(u.p1(), a) && same(u.p2(), q) && same(u.p3(), c), "set_p2");
	u = t; u.set_p3(q); CHECK(same(u.p1(), a) && same(u.p2(), b) && same(u.p3(), q), "set_p3");
	auto fresh = [&](const Triangle3& x, const char* what) { // answers follow the corners the triangle has now
		Point3 A = x.p1(), B = x.p2(), C = x.p3(), O = crs(sub(B, A), sub(C, A)); double S = len(sub(B, A)) * len(sub(C, A)), M = len(A) + len(B) + len(C);
		CHECK(len(sub(x.orthogonal(), O)) <= 1e-7 * (S + M * (len(sub(B, A)) + len(sub(C, A)))) + 1e-300 && std::fabs(x.surface() - len(O) / 2) <= 1e-7 * (S + M * (len(sub(B, A)) + len(sub(C, A)))), "area or orthogonal vector after %s", what);
		if (len(O) > 1e-4 * S && S > 1e-9 * (1 + M * M)) NEARP(x.normal(), mul(O, 1 / len(O)), "unit normal after a change");
	};
	u = t; fresh(u, "copying"); u.set_p1(q); fresh(u, "set_p1"); u.set_p2(add(q, a)); fresh(u, "set_p2"); u.set_p3(add(q, b)); fresh(u, "set_p3");
	Triangle3 z; z.set_p1(a); z.set_p2(b); z.set_p3(c); CHECK(same(z.p1(), a) && same(z.p2(), b) && same(z.p3(), c), "setters on an empty triangle");
}
CASE(segments)
{
	Point3 a = gpt(in, "a", -1e3, 1e3), b = gpt(in, "b", -1e3, 1e3), q = gpt(in, "q");
	Segment3 s(a, b);
	CHECK(same(s.p1(), a) && same(s.p2(), b), "segment end points");
	CLOSE(s.norm(), len(sub(a, b)), "segment length"); CLOSE(s.norm_square(), dot(sub(a, b), sub(a, b)), "segment squared length");
	CHECK(same(s.p1(), a) && same(s.p2(), b), "segment changed by a query");
	s.set_p1(q); CHECK(same(s.p1(), q) && same(s.p2(), b), "set_p1"); s.set_p2(a); CHECK(same(s.p1(), q) && same(s.p2(), a), "set_p2");
	CLOSE(s.norm(), len(sub(q, a)), "segment length after a change"); CLOSE(s.norm_square(), dot(sub(q, a), sub(q, a)), "segment squared length after a change");
	Line3 l(a, b); CHECK(same(l.p1(), a) && same(l.p2(), b), "line points");
	l.set_p1(q); CHECK(same(l.p1(), q) && same(l.p2(), b), "line set_p1"); l.set_p2(a); CHECK(same(l.p1(), q) && same(l.p2(), a), "line set_p2");
}
