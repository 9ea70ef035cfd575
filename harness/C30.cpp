//@srcs Geometry.cpp
#include "geo.h"

CASE(crossing)
{
	// segments made to cross at x = a + u*m = d + v*h
	bool integer = in.b("int");
	Point3 x = integer ? gip(in, "x", -4, 4) : gpt(in, "x"), u = integer ? gip(in, "u", -4, 4) : gpt(in, "u"), v = integer ? gip(in, "v", -4, 4) : gpt(in, "v");
	Point3 W = crs(u, v);
	if (len(W) < 1e-4 || len(W) < 1e-3 * len(u) * len(v)) SKIP();
	double m = in.uni("m", -1, 2), h = in.uni("h", 0, 1);
	if (in.one_in("end", 6)) m = in.i("mi", 0, 1);
	double gap = in.one_in("skew", 3) ? in.uni("gap", -2, 2) : 0;
	Point3 a = sub(x, mul(u, m)), d = sub(add(x, mul(W, gap)), mul(v, h));
	const Segment3 s(a, add(a, u)), t(d, add(d, v)); Point3 out(77, 78, 79);
	Point3 uu = sub(s.p2(), s.p1()), vv = sub(t.p2(), t.p1());
	if (len(crs(uu, vv)) < 1e-4) SKIP();
	bool r = s.intersect(t, out);
	CHECK(same(s.p1(), a) && same(t.p1(), d), "a segment changed");
	if (std::fabs(m) > 1e-6 && std::fabs(m - 1) > 1e-6) CHECK(r == (m > 0 && m < 1), "crossing at %g of the segment (%g of the other) but reported %d", m, h, (int)r);
	if (!r) { CHECK(same(out, Point3(77, 78, 79)), "point written without a crossing"); return; }
	double sc = 1 + len(x) + len(u) + len(v) + len(d);
	CHECK(len(sub(out, x)) < 1e-5 * sc, "crossing at %.12g %.12g %.12g but %.12g %.12g %.12g returned", x.x(), x.y(), x.z(), out.x(), out.y(), out.z());
	if (gap == 0 && h > 1e-6 && h < 1 - 1e-6)
	{
		// the other way round
		Point3 o2(77, 78, 79); bool r2 = t.intersect(s, o2);
		CHECK(r2 && len(sub(o2, x)) < 1e-5 * sc, "crossing missed the other way round (%d)", (int)r2);
	}
}
CASE(parallel)
{
	// integers: products are exact
	Point3 a = gip(in, "a", -9, 9), d = gip(in, "d", -9, 9), u = gip(in, "u", -9, 9); int f = in.i("f", -4, 4);
	if (in.one_in("line", 3)) d = add(a, u);
	Point3 out(77, 78, 79);
	const Segment3 s(a, add(a, u)), t(d, add(d, mul(u, f)));
	CHECK(!s.intersect(t, out) && same(out, Point3(77, 78, 79)), "parallel or degenerate segments reported as crossing");
	CHECK(!t.intersect(s, out) && same(out, Point3(77, 78, 79)), "parallel or degenerate segments reported as crossing");
}
CASE(meeting_at_an_end)
{
	// axes, lengths that are powers of two: every product and quotient is exact, the ends count
	int p = in.i("axis", 0, 2), q = (p + in.i("other", 1, 2)) % 3, e = in.i("scale", -5, 4); double k = std::ldexp(1., e);
	double U[3] = {0, 0, 0}, V[3] = {0, 0, 0}; U[p] = (in.b("nu") ? -k : k) * std::ldexp(1., in.i("lu", 0, 1)); V[q] = (in.b("nv") ? -k : k) * std::ldexp(1., in.i("lv", 0, 2));
	Point3 x = mul(gip(in, "x", -9, 9), k), u(U[0], U[1], U[2]), v(V[0], V[1], V[2]);
	int m = in.i("m", -1, 4), h = in.i("h", 0, 4); // quarters of the way
	Point3 a = sub(x, mul(u, m * .5)), d = sub(x, mul(v, h * .25)), out(77, 78, 79);
	const Segment3 s(a, add(a, u)), t(d, add(d, v)); bool want = m >= 0 && m <= 2, r = s.intersect(t, out);
	CHECK(r == want, "crossing at %g of a segment of length %g (%g of the other, of length %g) but reported %d", m * .5, len(u), h * .25, len(v), (int)r);
	if (!r) { CHECK(same(out, Point3(77, 78, 79)), "point written without a crossing"); return; }
	CHECK(len(sub(out, x)) < 1e-9 * (1 + len(x)), "crossing at %.12g %.12g %.12g but %.12g %.12g %.12g returned", x.x(), x.y(), x.z(), out.x(), out.y(), out.z());
}
