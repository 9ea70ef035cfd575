//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp NurbsCurve.cpp NurbsSurface.cpp
#define private public
#define protected public
#include "NurbsSurface.h"
#undef private
#undef protected
#include "Transform.h"
#include "spline.h"
struct Surf { int du, dv, nu, nv; vector<double> ku, kv, w; vector<Point3> p; };
static Surf gen(H::In& in, int dmax, bool seq = false, bool zeros = false) {
	Surf S; S.du = in.i("du", 0, dmax); S.dv = in.i("dv", 0, dmax); S.nu = S.du + 1 + in.small("eu", 0, 4); S.nv = S.dv + 1 + in.small("ev", 0, 4);
	if (seq && S.du == 0) S.nu = 1; if (seq && S.dv == 0) S.nv = 1;
	S.ku = gknots(in, "ku", S.du, S.nu, std::max(1, S.du)); S.kv = gknots(in, "kv", S.dv, S.nv, std::max(1, S.dv));
	bool eq = in.one_in("equal", 4); for (int i = 0; i < S.nu * S.nv; i++) { S.p.push_back(gpt(in, "p")); S.w.push_back(eq ? 1 : zeros && in.one_in("zero_w", 3) ? 0 : in.num("w", .2, 5)); }
	return S;
}
static void put(H::In& in, NurbsSurface& s, const Surf& S) {
	bool first = in.b("degree_first"); if (first) s.set_degree(S.du, S.dv);
	s.set_points(S.p, S.nu, S.nv);
	bool one = true; for (double w : S.w) one = one && w == 1;
	if (one) s.set_equals_weights(); else s.set_weights(S.w);
	if (in.b("v_first")) { s.set_knots_v(S.kv); s.set_knots_u(S.ku); } else { s.set_knots_u(S.ku); s.set_knots_v(S.kv); }
	if (!first) s.set_degree(S.du, S.dv);
}
static bool valued(const Surf& S, double u, double v) {
	auto A = basis(S.ku, S.du, u), B = basis(S.kv, S.dv, v); LD d = 0; for (int j = 0; j < S.nv; j++) for (int i = 0; i < S.nu; i++) d += A[i] * B[j] * S.w[i + S.nu * j]; return d > 1e-4;
}
static Point3 value(const Surf& S, double u, double v) {
	auto A = basis(S.ku, S.du, u), B = basis(S.kv, S.dv, v); LD x = 0, y = 0, z = 0, d = 0;
	for (int j = 0; j < S.nv; j++) for (int i = 0; i < S.nu; i++) { int e = i + S.nu * j; LD c = A[i] * B[j] * S.w[e]; d += c; x += c * S.p[e].x(); y += c * S.p[e].y(); z += c * S.p[e].z(); }
	return Point3((double)(x / d), (double)(y / d), (double)(z / d));
}
static void shape(H::In& in, const NurbsSurface& s, const Surf& S, const char* what, int n = 8) {
	for (int e = 0; e < n; e++) {
		double u = gpar(in, "u", S.ku), v = gpar(in, "v", S.kv); if (e < 4 && in.b("corner")) { u = e & 1; v = e >> 1; }
		Point3 r = value(S, u, v), p = gpt(in, "junk"); s.evaluate(u, v, p); if (!valued(S, u, v)) continue;
		CHECK(len(sub(p, r)) < 1e-6 * (1 + len(r)), "%s: point at (%.17g,%.17g) is %s instead of %s (degrees %d,%d grid %dx%d)", what, u, v, str(p).c_str(), str(r).c_str(), S.du, S.dv, S.nu, S.nv);
	}
}
static void knots_are(const vector<double>& k, const vector<double>& w, const char* what) {
	CHECK(k.size() == w.size(), "%s: %zu knots instead of %zu", what, k.size(), w.size()); for (size_t i = 0; i < w.size(); i++) CHECK(std::fabs(k[i] - w[i]) < 1e-14, "%s: knot %zu is %g instead of %g", what, i, k[i], w[i]);
}
CASE(value_of_surface) {
	NurbsSurface s;
	for (int r = in.i("rounds", 1, 3); r > 0; r--) {
		if (in.one_in("clear", 4)) s.clear();
		Surf S = gen(in, 4, false, in.one_in("zeros", 3)); put(in, s, S); if (in.one_in("copy", 3)) { NurbsSurface t(s); s = t; }
		shape(in, s, S, "evaluation");
		CHECK(s.degree_u() == S.du && s.degree_v() == S.dv && s.nb_points_u() == S.nu && s.nb_points_v() == S.nv && s.weights() == S.w, "evaluation changed the surface"); knots_are(s.knots_u(), S.ku, "u"); knots_are(s.knots_v(), S.kv, "v");
		const NurbsSurface& cs = s; CHECK(cs.points().size() == S.p.size(), "points"); for (size_t i = 0; i < S.p.size(); i++) CHECK(same(cs.points()[i], S.p[i]), "point %zu", i);
	}
}
static void valid(const NurbsSurface& s, const char* what) {
	CHECK(s.points().size() == (size_t)s.nb_points_u() * s.nb_points_v() && s.weights().size() == s.points().size(), "%s: %zu points, %zu weights, grid %dx%d", what, s.points().size(), s.weights().size(), s.nb_points_u(), s.nb_points_v());
	CHECK((int)s.knots_u().size() == s.nb_points_u() + s.degree_u() + 1 && (int)s.knots_v().size() == s.nb_points_v() + s.degree_v() + 1, "%s: knots do not match the grid", what);
}
static void refine(H::In& in, NurbsSurface& s, int dmult) {
	bool dirU = in.b("u_direction"); vector<double> a = dirU ? s.knots_u() : s.knots_v(), b = dirU ? s.knots_v() : s.knots_u(); int d = dirU ? s.degree_u() : s.degree_v(), od = dirU ? s.degree_v() : s.degree_u(), n = dirU ? s.nb_points_u() : s.nb_points_v(), on = dirU ? s.nb_points_v() : s.nb_points_u();
	auto rest = [&](const char* w) { valid(s, w); CHECK((dirU ? s.degree_v() : s.degree_u()) == od && (dirU ? s.nb_points_v() : s.nb_points_u()) == on, "%s: the other direction changed", w); knots_are(dirU ? s.knots_v() : s.knots_u(), b, w); };
	if (in.b("elevate")) {
		vector<double> pw = s.weights(); bool r = dirU ? s.degree_elevation_u() : s.degree_elevation_v(); CHECK(r == (d <= 2), "elevation of degree %d returned %d", d, r);
		vector<double> e; for (size_t i = 0; i < a.size(); i++) { e.push_back(a[i]); if (r && (i + 1 == a.size() || a[i] != a[i + 1])) e.push_back(a[i]); }
		rest("elevation"); CHECK((dirU ? s.degree_u() : s.degree_v()) == d + r, "elevation: degree"); knots_are(dirU ? s.knots_u() : s.knots_v(), e, "elevation");
		if (!r) CHECK(pw == s.weights(), "refused elevation changed the weights");
	} else {
		double u = in.one_in("knot", 3) ? a[in.i("at", 0, (int)a.size() - 1)] : in.uni("u", 0, 1); if (u <= 0 || u >= 1 || (int)std::count(a.begin(), a.end(), u) >= d) return;
		if (dirU) s.insert_knot_u(u); else s.insert_knot_v(u);
		a.insert(std::upper_bound(a.begin(), a.end(), u), u); rest("insertion"); knots_are(dirU ? s.knots_u() : s.knots_v(), a, "insertion"); CHECK((dirU ? s.nb_points_u() : s.nb_points_v()) == n + 1 && (dirU ? s.degree_u() : s.degree_v()) == d, "insertion: count or degree");
	}
}
CASE(refinement) {
	Surf S = gen(in, 3, true); NurbsSurface s; bool cu = in.b("closed_u"), cv = in.b("closed_v"); s.set_closed_u(cu); s.set_closed_v(cv); put(in, s, S);
	for (int i = in.i("n", 1, 4); i > 0; i--) { refine(in, s, 0); shape(in, s, S, "refinement", 5); }
	CHECK(s.is_closed_u() == cu && s.is_closed_v() == cv, "refinement changed the closed flags");
}
CASE(single_refinement) {
	Surf S = gen(in, 4); NurbsSurface s; put(in, s, S); refine(in, s, 0); shape(in, s, S, "refinement");
}
CASE(former_state) {
	NurbsSurface s; Surf S = gen(in, 3), T = gen(in, 3); put(in, s, S); bool cu = in.b("closed_u"), cv = in.b("closed_v"); s.set_closed_u(cu); s.set_closed_v(cv);
	CHECK(s.is_closed_u() == cu && s.is_closed_v() == cv, "closed flags");
	s.set_points(T.p, T.nu, T.nv); s.set_equals_weights(); CHECK(s.weights().size() == T.p.size(), "%zu equal weights for %zu points", s.weights().size(), T.p.size());
	for (double w : s.weights()) CHECK(w == 1, "equal weights contain %g", w);
	s.clear(); NurbsSurface e;
	CHECK(s.degree_u() == 0 && s.degree_v() == 0 && s.knots_u().empty() && s.knots_v().empty() && s.weights().empty() && s.points().empty() && s.nb_points_u() == 0 && s.nb_points_v() == 0, "clear left something");
	CHECK(s.is_closed_u() == e.is_closed_u() && s.is_closed_v() == e.is_closed_v(), "clear left the closed flags (%d,%d)", s.is_closed_u(), s.is_closed_v());
}
CASE(transformed) {
	Surf S = gen(in, 3); NurbsSurface s; put(in, s, S); Point3 t = gpt(in, "t"); Translation tr(t); s.apply_transform(tr); for (auto& p : S.p) p = add(p, t); shape(in, s, S, "translated surface");
}
