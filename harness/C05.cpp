//@srcs Geometry.cpp Transform.cpp
#define H_TOL 1e-10
#include "geo.h"
#include "Transform.h"
#include <memory>

static const double PI_ = 3.14159265358979323846;
static Point3 rod(const Point3& p, const Point3& u, double a) { double c = cos(a), s = sin(a); return add(add(mul(p, c), mul(crs(u, p), s)), mul(u, dot(u, p) * (1 - c))); }
static double ang(H::In& in, const char* n) { return in.one_in("right", 4) ? 90. * in.i(n, -8, 8) : in.num(n, -720, 720); }
static Point3 axis(H::In& in)
{
	if (in.one_in("coord", 5)) { int k = in.i("k", 0, 5); double s = k < 3 ? 1 : -1; k %= 3; return Point3(k == 0 ? s : 0, k == 1 ? s : 0, k == 2 ? s : 0); }
	Point3 a = gpt(in, "ax"); double l = len(a); if (l < 0.1) return Point3(0, 0.6, 0.8); return mul(a, 1 / l);
}
CASE(rotations)
{
	double a = ang(in, "angle"), r = a * PI_ / 180; const Point3 u = axis(in), p = gpt(in, "p", -50, 50), q = gpt(in, "q", -50, 50);
	RotationQuaternion Q; RotationMatrix M; RotationAngleAxis A1, A2, A3(a, u);
	Q.from_angle_axis(a, u); M.from_angle_axis(a, u); A1.from_angle_axis(a, u); A2.set_angle_axis(a, u);
	const Transform* T[5] = { &Q, &M, &A1, &A2, &A3 }; const char* N[5] = { "quaternion", "matrix", "angle-axis from", "angle-axis set", "angle-axis constructor" };
	for (int i = 0; i < 5; i++) {
		Point3 x = p; T[i]->apply(x); NEARP(x, rod(p, u, r), "%s rotation of %s by %g about %s", N[i], str(p).c_str(), a, str(u).c_str());
		Point3 y = q; T[i]->apply(y); NEARP(y, rod(q, u, r), "%s rotation, second application", N[i]);
		CLOSE(len(sub(x, y)), len(sub(p, q)), "%s rotation changes a distance", N[i]);
		Point3 z = u; T[i]->apply(z); NEARP(z, u, "%s rotation moves its axis", N[i]);
		x = p; T[i]->apply(x); NEARP(x, rod(p, u, r), "%s rotation changed by use", N[i]);
	}
	RotationMatrix B; B.from_angle_axis(-a, u); Point3 x = p; M.apply(x); B.apply(x); NEARP(x, p, "opposite matrix rotation");
	RotationQuaternion C; C.from_angle_axis(-a, u); x = p; Q.apply(x); C.apply(x); NEARP(x, p, "opposite quaternion rotation");
	double b = ang(in, "angle2"); Q.from_angle_axis(b, u); x = p; Q.apply(x); NEARP(x, rod(p, u, b * PI_ / 180), "quaternion set twice");
	M.from_angle_axis(b, u); x = p; M.apply(x); NEARP(x, rod(p, u, b * PI_ / 180), "matrix set twice");
}
CASE(euler)
{
	double y = ang(in, "yaw"), p = ang(in, "pitch"), r = ang(in, "roll"); Point3 v = gpt(in, "v", -50, 50), w = gpt(in, "w", -50, 50);
	RotationEulerAngles E(y, p, r), F(10, 20, 30); F.set_angles(y, p, r);
	double k = PI_ / 180; y *= k; p *= k; r *= k;
	auto spec = [&](Point3 v) { Point3 a(v._x * cos(y) + v._z * sin(y), v._y, v._z * cos(y) - v._x * sin(y)); Point3 b(a._x, a._z * sin(p) - a._y * cos(p), a._z * cos(p) + a._y * sin(p)); return Point3(b._x * cos(r) + b._y * sin(r), b._y * cos(r) - b._x * sin(r), b._z); };
	Point3 x = v, z = w; E.apply(x); NEARP(x, spec(v), "Euler angles"); E.apply(z); NEARP(z, spec(w), "Euler angles, second application");
	CLOSE(len(sub(x, z)), len(sub(v, w)), "Euler angles change a distance");
	x = v; F.apply(x); NEARP(x, spec(v), "set_angles");
	x = v; E.apply(x); NEARP(x, spec(v), "Euler angles changed by use");
	// only some of the angles change
	double d[3] = { y / k, p / k, r / k }; int m = in.i("which", 1, 7); for (int i = 0; i < 3; i++) if (m >> i & 1) d[i] = ang(in, "again");
	E.set_angles(d[0], d[1], d[2]); y = d[0] * k; p = d[1] * k; r = d[2] * k;
	x = v; E.apply(x); NEARP(x, spec(v), "set_angles on angles in use (changed: %d)", m);
}
CASE(set_again)
{
	double a = ang(in, "angle"), b = in.b("same angle") ? a : ang(in, "angle2"); const Point3 u = axis(in), w = in.b("same axis") ? u : axis(in), p = gpt(in, "p", -50, 50);
	RotationQuaternion Q; RotationMatrix M; RotationAngleAxis A, B(a, u); Q.from_angle_axis(a, u); M.from_angle_axis(a, u); A.set_angle_axis(a, u);
	const Transform* T[4] = { &Q, &M, &A, &B }; for (auto t : T) { Point3 x = p; t->apply(x); NEARP(x, rod(p, u, a * PI_ / 180), "rotation"); }
	Q.from_angle_axis(b, w); M.from_angle_axis(b, w); A.set_angle_axis(b, w); B.from_angle_axis(b, w);
	const char* N[4] = { "quaternion", "matrix", "angle-axis set", "angle-axis from" };
	for (int i = 0; i < 4; i++) { Point3 x = p; T[i]->apply(x); NEARP(x, rod(p, w, b * PI_ / 180), "%s given again", N[i]); }
}
CASE(translation_scale_matrix)
{
	Point3 t = gpt(in, "t"), p = gpt(in, "p"); Translation T(t); Point3 x = p; T.apply(x); NEARP(x, add(p, t), "translation"); T.apply(x); NEARP(x, add(p, mul(t, 2)), "translation twice");
	double a = in.num("sx"), b = in.num("sy"), c = in.num("sz"); Scale S(a, b, c); x = p; S.apply(x); NEARP(x, Point3(p._x * a, p._y * b, p._z * c), "scale");
	S.apply(x); NEARP(x, Point3(p._x * a * a, p._y * b * b, p._z * c * c), "scale twice");
	double m[9], g[9]; for (auto& e : m) e = in.num("m"); RotationMatrix M(m); M.get_matrix(g); for (int i = 0; i < 9; i++) CHECK(g[i] == m[i], "matrix entry %d", i);
	x = p; M.apply(x); NEARP(x, Point3(m[0] * p._x + m[1] * p._y + m[2] * p._z, m[3] * p._x + m[4] * p._y + m[5] * p._z, m[6] * p._x + m[7] * p._y + m[8] * p._z), "matrix times column vector");
	RotationMatrix I; x = p; I.apply(x); NEARP(x, p, "default matrix"); I.set_matrix(m); I.get_matrix(g); for (int i = 0; i < 9; i++) CHECK(g[i] == m[i], "set_matrix entry %d", i);
	RotationQuaternion J; x = p; J.apply(x); NEARP(x, p, "default quaternion");
	double q[4], n = 0; for (auto& e : q) { e = in.num("q"); n += e * e; } if (n < 0.1) SKIP(); for (auto& e : q) e /= std::sqrt(n);
	RotationQuaternion Q(q); x = p; Q.apply(x); Point3 v(q[1], q[2], q[3]); NEARP(x, add(add(mul(p, q[0] * q[0] - dot(v, v)), mul(v, 2 * dot(v, p))), mul(crs(v, p), 2 * q[0])), "quaternion conjugation");
	J.set_quaternion(q); Point3 y = p; J.apply(y); NEARP(y, x, "set_quaternion");
}
CASE(lists)
{
	int n = in.small("n", 0, 40); std::vector<Point3> v, w; for (int i = 0; i < n; i++) v.push_back(gpt(in, "p")); w = v;
	double a = ang(in, "angle"); Point3 u = axis(in); RotationAngleAxis R(a, u); R.apply_all(w);
	CHECK(w.size() == v.size(), "count changed"); for (int i = 0; i < n; i++) NEARP(w[i], rod(v[i], u, a * PI_ / 180), "point %d of the list", i);
}
