//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp BezierUtil.cpp QuadBezierTriangle.cpp CubicBezierTriangles.cpp SmoothMesh.cpp
#define private public
#define protected public
#define H_TOL 1e-10
#include "QuadBezierTriangle.h"
#include "CubicBezierTriangles.h"
#include "SmoothMesh.h"
#undef private
#undef protected
#include "BezierUtil.h"
#include "Transform.h"
#include "meshref.h"
#include <array>
CASE(bernstein) {
	using namespace BezierUtil; double u = in.num("u", -2, 3), v = 1 - u;
	CLOSE(Bernstein01(u), v, "B01"); CLOSE(Bernstein11(u), u, "B11");
	CLOSE(Bernstein02(u), v * v, "B02"); CLOSE(Bernstein12(u), 2 * u * v, "B12"); CLOSE(Bernstein22(u), u * u, "B22");
	CLOSE(Bernstein03(u), v * v * v, "B03"); CLOSE(Bernstein13(u), 3 * u * v * v, "B13"); CLOSE(Bernstein23(u), 3 * u * u * v, "B23"); CLOSE(Bernstein33(u), u * u * u, "B33");
	CLOSE(square(u), u * u, "square"); CLOSE(cubic(u), u * u * u, "cubic");
}
struct Ref { Point3 p[6]; double w[6]; };
static Ref fill(H::In& in, QuadBezierTriangle& q) {
	Ref r; for (int i = 0; i < 6; i++) { r.p[i] = gpt(in, "p"); r.w[i] = 1; }
	q.set_points(r.p[0], r.p[1], r.p[2]);
	if (in.one_in("flat", 4)) { r.p[3] = mul(add(r.p[0], r.p[1]), .5); r.p[4] = mul(add(r.p[0], r.p[2]), .5); r.p[5] = mul(add(r.p[1], r.p[2]), .5); }
	else q.set_control_points(r.p[3], r.p[4], r.p[5]);
	if (in.b("weights")) { for (int i = 0; i < 6; i++) r.w[i] = in.num("w", .2, 4); q.set_weights(r.w[0], r.w[1], r.w[2], r.w[3], r.w[4], r.w[5]); }
	return r;
}
static Point3 value(const Ref& r, double s, double u, double v) {
	double b[6] = { s * s, u * u, v * v, 2 * s * u, 2 * s * v, 2 * u * v }, d = 0; Point3 n(0, 0, 0);
	for (int i = 0; i < 6; i++) { d += r.w[i] * b[i]; n = add(n, mul(r.p[i], r.w[i] * b[i])); }
	return mul(n, 1 / d);
}
CASE(patch) {
	QuadBezierTriangle q; Ref r = fill(in, q);
	double s = in.num("s", 0, 1), u = in.num("u", 0, 1); if (s + u > 1) { s = 1 - s; u = 1 - u; } double v = 1 - s - u;
	NEARP(q.eval(s, u), value(r, s, u, v), "value at (%g,%g)", s, u); NEARP(q.eval(s, u, v), value(r, s, u, v), "value at (%g,%g,%g)", s, u, v);
	NEARP(q.eval(1, 0), r.p[0], "corner 1"); NEARP(q.eval(0, 1), r.p[1], "corner 2"); NEARP(q.eval(0, 0), r.p[2], "corner 3"); NEARP(q.eval(0, 0, 1), r.p[2], "corner 3");
	NEARP(q.eval(s, u), value(r, s, u, v), "second evaluation at (%g,%g)", s, u);
	for (int e = in.small("again", 0, 3); e > 0; e--) { // the same patch given other points
		int what = in.i("what", 0, 2); Point3 a = gpt(in, "a"), b = gpt(in, "b"), c = gpt(in, "c");
		if (what == 0) { q.set_points(a, b, c); r.p[0] = a; r.p[1] = b; r.p[2] = c; r.p[3] = mul(add(a, b), .5); r.p[4] = mul(add(a, c), .5); r.p[5] = mul(add(b, c), .5); }
		else if (what == 1) { q.set_control_points(a, b, c); r.p[3] = a; r.p[4] = b; r.p[5] = c; }
		else { q.apply_transform(Translation(a)); for (auto& x : r.p) x = add(x, a); }
		NEARP(q.eval(s, u), value(r, s, u, v), "value at (%g,%g) after a change", s, u); NEARP(q.eval(0, 1), r.p[1], "corner 2 after a change");
	}
}
CASE(meshing) {
	QuadBezierTriangle q; Ref r = fill(in, q); Mesh m; if (in.b("full")) randmesh(in, m, 5, 4); RefMesh old = snap(m);
	int n = in.i("n", 1, 9); size_t v0 = old.v.size(), t0 = old.t.size();
	if (in.b("smooth")) { SmoothMesh sm; sm.add_triangle(q); sm.add_to_mesh(m, n); } else q.add_to_mesh(m, n);
	RefMesh now = snap(m), part = now; part.v.resize(v0); part.t.resize(t0); part.color = old.color; CHECK(now.v.size() >= v0 && now.t.size() >= t0, "mesh shrank");
	std::string d = diff(part, old); CHECK(d.empty(), "what the mesh had before: %s", d.c_str());
	CHECK(now.t.size() - t0 == (size_t)n * n, "%zu triangles for %d segments", now.t.size() - t0, n);
	// parameters of each new vertex: the node whose point it is
	std::vector<std::array<int, 2>> par(now.v.size(), { -1, -1 });
	size_t k = v0; int found = 0;
	CHECK(now.v.size() - v0 == (size_t)(n + 1) * (n + 2) / 2, "%zu vertices for %d segments", now.v.size() - v0, n);
	for (int i = 0; i <= n; i++) for (int j = 0; i + j <= n; j++) {
		Point3 p = value(r, i / (double)n, j / (double)n, (n - i - j) / (double)n);
		if (near(now.v[k], p)) { par[k] = { i, j }; found++; } else { for (size_t x = v0; x < now.v.size(); x++) if (par[x][0] < 0 && near(now.v[x], p)) { par[x] = { i, j }; found++; break; } }
		k++;
	}
	CHECK(found == (n + 1) * (n + 2) / 2, "a node of the patch has no vertex");
	std::set<std::array<int, 3>> cells; int turn = 0;
	for (size_t i = t0; i < now.t.size(); i++) {
		auto& t = now.t[i]; CHECK(!t.dead, "removed triangle"); int v[3] = { t.a, t.b, t.c }, x[3], y[3];
		for (int e = 0; e < 3; e++) { CHECK(v[e] >= (int)v0 && v[e] < (int)now.v.size(), "triangle refers to vertex %d of %zu", v[e], now.v.size()); x[e] = par[v[e]][0]; y[e] = par[v[e]][1]; }
		int a = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]);
		CHECK(abs(a) == 1, "triangle %zu of %d segments is not a cell", i - t0, n); if (!turn) turn = a; CHECK(a == turn, "triangle %zu is oriented the other way", i - t0);
		int mx = std::min(x[0], std::min(x[1], x[2])), my = std::min(y[0], std::min(y[1], y[2]));
		for (int e = 0; e < 3; e++) CHECK(x[e] <= mx + 1 && y[e] <= my + 1, "triangle %zu spans several cells", i - t0);
		int half = x[0] + x[1] + x[2] - 3 * mx; CHECK(half == y[0] + y[1] + y[2] - 3 * my, "triangle %zu is cut along the wrong diagonal", i - t0);
		CHECK(cells.insert({ mx, my, half }).second, "cell (%d,%d,%d) is covered twice", mx, my, half);
	}
}
CASE(cubic) {
	CubicBezierTriangles q; Point3 p[3], n[3]; for (auto& x : p) x = gpt(in, "p");
	for (auto& x : n) { x = gpt(in, "n"); double l = len(x); if (l < .1) SKIP(); x = mul(x, 1 / l); }
	q.set_points(p[0], p[1], p[2]); q.set_normals(n[0], n[1], n[2]);
	Point3 c[3][3]; c[0][1] = q._controlP1P2; c[1][0] = q._controlP2P1; c[0][2] = q._controlP1P3; c[2][0] = q._controlP3P1; c[1][2] = q._controlP2P3; c[2][1] = q._controlP3P2;
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) {
		Point3 third = mul(add(mul(p[i], 2), p[j]), 1 / 3.), want = sub(third, mul(n[i], dot(sub(third, p[i]), n[i])));
		NEARP(c[i][j], want, "control point of side %d%d", i + 1, j + 1);
	}
	NEARP(q._P1, p[0], "corner 1"); NEARP(q._P2, p[1], "corner 2"); NEARP(q._P3, p[2], "corner 3");
	Point3 E = mul(add(add(add(c[0][1], c[1][0]), add(c[0][2], c[2][0])), add(c[1][2], c[2][1])), 1 / 6.), V = mul(add(add(p[0], p[1]), p[2]), 1 / 3.);
	NEARP(q._controlCenter, add(E, mul(sub(E, V), .5)), "centre");
}
CASE(smooth_mesh) {
	SmoothMesh sm; int k = in.i("patches", 0, 5), n = in.i("n", 1, 5); std::vector<QuadBezierTriangle> qs(k);
	for (auto& q : qs) { fill(in, q); sm.add_triangle(q); }
	Mesh m, w; if (in.b("full")) { randmesh(in, m, 5, 4); w = m; m = w; if (m.nb_triangles() && in.b("removed")) { m.unlink_triangle(0); w.unlink_triangle(0); } } // a copy leaves the removed triangles out
	sm.add_to_mesh(m, n); for (auto& q : qs) q.add_to_mesh(w, n);
	RefMesh a = snap(m), b = snap(w); std::string d = diff(a, b); CHECK(d.empty(), "%d patches in %d segments: %s", k, n, d.c_str());
	CHECK(sm.nb_triangles() == k, "patches changed");
}
CASE(cubic_points) {
	CubicBezierTriangles q; Point3 p[10]; for (auto& x : p) x = gpt(in, "p");
	q.set_points(p[0], p[1], p[2]); q.set_control_points(p[3], p[4], p[5], p[6], p[7], p[8]); q.set_control_center(p[9]);
	Point3 g[10] = { q._P1, q._P2, q._P3, q._controlP1P2, q._controlP2P1, q._controlP1P3, q._controlP3P1, q._controlP2P3, q._controlP3P2, q._controlCenter };
	for (int i = 0; i < 10; i++) CHECK(same(g[i], p[i]), "point %d not stored", i);
}
