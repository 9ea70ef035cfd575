//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp Renderer.cpp RendererCamera.cpp RendererLight.cpp
#include <vector>
#include <string>
#include <memory>
#include <map>
#include <sstream>
#include <fstream>
#include <cmath>
#define private public
#include "Renderer.h"
#undef private
#include "Mesh.h"
#include "meshref.h"
struct Buf { int X, Y; std::vector<int> p; std::vector<float> w; int& P(int x, int y) { return p[(size_t)y * X + x]; } float& W(int x, int y) { return w[(size_t)y * X + x]; } };
// pixels in a block of their own, so that the sanitizer sees any access outside
struct Scene {
	int X, Y; std::unique_ptr<int[]> pix; std::unique_ptr<Renderer> r;
	Scene(H::In& in, int mx = 12) { X = in.i("width", 1, mx); Y = in.i("height", 1, mx); pix.reset(new int[X * Y]); for (int i = 0; i < X * Y; i++) pix[i] = 77; r.reset(new Renderer(pix.get(), X, Y)); r->set_camera(0, 0, 0, 0, 0, 0, 0, 1); r->add_ambient_light(0xffffff, 256 / 255.); }
	Buf get() { Buf b{ X,Y,std::vector<int>(pix.get(), pix.get() + X * Y),std::vector<float>(r->_wBuffer, r->_wBuffer + X * Y) }; return b; }
	void noise(H::In& in) { if (in.b("noise")) for (int i = 0; i < X * Y; i++) { r->_wBuffer[i] = (float)(in.unit() * .4); pix[i] = 1000 + i; } }
};
static bool eqw(double a, double b, double tol) { return std::fabs(a - b) <= tol + 1e-6 * (std::fabs(a) + std::fabs(b)); }
// must: inside for sure; may: not outside for sure; d, tol: depth expected
struct Frag { bool must = false, may = false; double d = 0, tol = 0; };
static void compare(Buf& o, Buf& n, int color, double eps, const std::function<Frag(int, int)>& f, const char* what) {
	for (int y = 0; y < o.Y; y++) for (int x = 0; x < o.X; x++) {
		bool ch = o.P(x, y) != n.P(x, y) || o.W(x, y) != n.W(x, y); Frag g = f(x, y);
		if (ch) { CHECK(g.may, "%s: pixel (%d,%d) of %d x %d is not part of it but changed", what, x, y, o.X, o.Y); CHECK(n.P(x, y) == color, "%s: pixel (%d,%d) has colour %d instead of %d with its new depth %g", what, x, y, n.P(x, y), color, n.W(x, y)); CHECK(n.W(x, y) > o.W(x, y) - eps - 1e-6 * std::fabs(o.W(x, y)), "%s: pixel (%d,%d) was at depth %g and now at %g, which is farther", what, x, y, o.W(x, y), n.W(x, y)); CHECK(eqw(n.W(x, y), g.d, g.tol), "%s: pixel (%d,%d) of %d x %d has depth %.9g instead of %.9g (+-%g)", what, x, y, o.X, o.Y, n.W(x, y), g.d, g.tol); }
		else if (g.must) CHECK(o.W(x, y) + 1e-9 > g.d + eps - g.tol - 1e-6 * std::fabs(g.d), "%s: pixel (%d,%d) of %d x %d, depth %g, is not covered by a fragment at %g", what, x, y, o.X, o.Y, o.W(x, y), g.d);
	}
}
CASE(scan_line) {
	Scene s(in); s.noise(in); int k = in.i("scale", 0, 3); int M = k == 0 ? 15 : k == 1 ? 40 : k == 2 ? 1000 : 1 << 24; int ax = in.i("ax", -M, M), bx = in.i("bx", -M, M), y = in.i("y", -3, s.Y + 3); if (in.b("inside")) ax = in.i("ax", -3, s.X); if (bx < ax) std::swap(ax, bx); double aw = in.num("aw", 0, 1), bw = in.num("bw", 0, 1); int color = in.i("color", 1, 900);
	Buf o = s.get(); s.r->draw_horizontal_line(ax, aw, bx, bw, y, color); Buf n = s.get();
	compare(o, n, color, 0, [&](int px, int py) { Frag f; f.must = f.may = py == y && px >= ax && px <= bx; f.d = ax == bx ? bw : aw + (bw - aw) * (px - ax) / (bx - ax); f.tol = 1e-6; return f; }, H::fmt("line from (%d, %g) to (%d, %g) in row %d", ax, aw, bx, bw, y).c_str());
}
CASE(trapezoid) {
	Scene s(in); s.noise(in); int M = in.one_in("far", 3) ? 200 : 20; double x[4], w[4]; for (int i = 0; i < 4; i++) { x[i] = in.b("int") ? in.i("xi", -M, M) : in.num("x", -M, M); w[i] = in.num("w", 0, 1); } int ay = in.i("ay", -M, M), cy = in.i("cy", -M, M); if (in.b("inside")) ay = in.i("ay", -2, s.Y); if (cy < ay) std::swap(ay, cy); if (x[1] < x[0]) std::swap(x[0], x[1]); if (x[3] < x[2]) std::swap(x[2], x[3]); int color = in.i("color", 1, 900);
	Buf o = s.get(); s.r->draw_trapeze(x[0], w[0], x[1], w[1], ay, x[2], w[2], x[3], w[3], cy, color); Buf n = s.get();
	compare(o, n, color, 0, [&](int px, int py) { Frag f; if (py < ay || py >= cy) return f; double t = (double)(py - ay) / (cy - ay), l = x[0] + t * (x[2] - x[0]), r = x[1] + t * (x[3] - x[1]), wl = w[0] + t * (w[2] - w[0]), wr = w[1] + t * (w[3] - w[1]); f.may = px >= l - .5001 && px <= r + .5001; f.must = px >= l - .4999 && px <= r + .4999; double L = std::floor(l + .5), R = std::floor(r + .5); f.d = L == R ? wr : wl + (wr - wl) * (px - L) / (R - L); f.tol = 1e-5; if (std::fabs(l + .5 - std::round(l + .5)) < 1e-4 || std::fabs(r + .5 - std::round(r + .5)) < 1e-4) { f.tol = R - L > 1 ? std::fabs(wr - wl) / (R - L - 1) + 1e-5 : 2; f.must = f.must && px >= l && px <= r; } return f; }, H::fmt("trapezoid (%g..%g, row %d) to (%g..%g, row %d)", x[0], x[1], ay, x[2], x[3], cy).c_str());
}
// a point that projects near (x, y) of the frame at distance z
static Point3 at(Scene& s, double x, double y, double z) { return Point3((x - s.X / 2) * z, (y - s.Y / 2) * z, z); }
static Point3 spot(H::In& in, Scene& s) { int k = in.i("kind", 0, 5); double M = k < 2 ? 6 : k < 5 ? 30 : 300; double z = in.num("z", 1, 8); if (k == 5 && in.one_in("behind", 3)) z = -z; return at(s, s.X * .5 + in.num("x", -M, M), s.Y * .5 + in.num("y", -M, M), z); }
static void face(Scene& s, Buf& o, Buf& n, const Point3* p, int color, bool two, const char* what) {
	int x[3], y[3]; double w[3]; for (int i = 0; i < 3; i++) s.r->_camera.project(p[i], x[i], y[i], w[i]);
	double A = (double)(x[0] - x[1]) * (y[0] - y[2]) - (double)(y[0] - y[1]) * (x[0] - x[2]); bool seen = two || A > 0;
	double gx = 0, gy = 0; if (A != 0) { gx = (-(w[0] - w[1]) * (y[0] - y[2]) + (w[0] - w[2]) * (y[0] - y[1])) / -A; gy = (-(w[0] - w[2]) * (x[0] - x[1]) + (w[0] - w[1]) * (x[0] - x[2])) / -A; }
	int ymin = std::min({ y[0],y[1],y[2] }), ymax = std::max({ y[0],y[1],y[2] });
	compare(o, n, color, 0, [&](int px, int py) { Frag f; if (!seen) return f; if (A == 0) { f.may = py >= ymin && py <= ymax; f.tol = 10; return f; }
		// the span of the row, from the edges
		double l = 1e30, r = -1e30; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3; if (y[i] == y[j]) { if (py == y[i]) { l = std::min<double>(l, std::min(x[i], x[j])); r = std::max<double>(r, std::max(x[i], x[j])); } } else if (py >= std::min(y[i], y[j]) && py <= std::max(y[i], y[j])) { double v = x[i] + (double)(x[j] - x[i]) * (py - y[i]) / (y[j] - y[i]); l = std::min(l, v); r = std::max(r, v); } }
		f.may = py >= ymin && py < ymax && px >= l - 1.01 && px <= r + 1.01; bool in_ = py >= ymin && py < ymax && px >= l + 1.01 && px <= r - 1.01; bool off = (x[0] <= 0 && x[1] <= 0 && x[2] <= 0) || (y[0] <= 0 && y[1] <= 0 && y[2] <= 0); f.must = in_ && !off; f.d = w[0] + gx * (px - x[0]) + gy * (py - y[0]); f.tol = 1.02 * std::fabs(gx) + 1e-5; return f; }, what);
	(void)ymin;
}
CASE(triangle) {
	Scene s(in); s.noise(in); Point3 p[3]; for (auto& q : p) q = spot(in, s); bool two = in.b("two"); int color = 0x010101 * in.i("color", 1, 255); if (len(crs(sub(p[1], p[0]), sub(p[2], p[0]))) < 1e-6) SKIP();
	Buf o = s.get(); bool vis = s.r->draw_triangle_1color(p[0], p[1], p[2], color, two); Buf n = s.get(); int lit = s.r->compute_color_with_lights(color, Triangle3(p[0], p[1], p[2]).normal()); bool ch = o.p != n.p || o.w != n.w; CHECK(vis || !ch, "reported as not visible but pixels changed"); face(s, o, n, p, lit, two, H::fmt("triangle %s %s %s", str(p[0]).c_str(), str(p[1]).c_str(), str(p[2]).c_str()).c_str());
}
CASE(mesh) {
	Scene s(in); s.noise(in); Mesh m; int nv = in.i("nv", 3, 6); for (int i = 0; i < nv; i++) m.add_vertex(spot(in, s)); int nt = in.i("nt", 1, 4); std::vector<std::array<int, 3>> t; for (int i = 0; i < nt; i++) { int a = in.i("a", 0, nv - 1), b = (a + in.i("b", 1, 2)) % nv, c = (b + 1) % nv; if (c == a) c = (c + 1) % nv; m.add_triangle(a, b, c); Triangle3 q; m.get_triangle(i, q); if (len(crs(sub(q.p2(), q.p1()), sub(q.p3(), q.p1()))) < 1e-6) SKIP(); } for (int i = 0; i < nt; i++) if (in.one_in("rm", 3)) m.unlink_triangle(i); if (in.b("col")) m.set_color(0x010101 * in.i("color", 1, 255)); int color = in.b("own") ? -1 : 0x010101 * in.i("over", 1, 255); bool edges = in.b("edges");
	// the same, triangle by triangle and line by line, on a second frame
	Scene q(in, 1); q.X = s.X; q.Y = s.Y; q.pix.reset(new int[s.X * s.Y]); std::copy(s.pix.get(), s.pix.get() + s.X * s.Y, q.pix.get()); Buf st = s.get(); q.r.reset(new Renderer(q.pix.get(), s.X, s.Y)); q.r->set_camera(0, 0, 0, 0, 0, 0, 0, 1); q.r->add_ambient_light(0xffffff, 256 / 255.); std::copy(st.p.begin(), st.p.end(), q.pix.get()); std::copy(st.w.begin(), st.w.end(), q.r->_wBuffer);
	RefMesh before = snap(m); s.r->draw_mesh(m, edges, color); SAMEMESH(m, before, "drawing"); int c = color == -1 ? m.get_color() : color;
	for (auto& x : before.t) { if (x.dead) continue; if (q.r->draw_triangle_1color(before.v[x.a], before.v[x.b], before.v[x.c], c) && edges) { q.r->draw_line(before.v[x.a], before.v[x.b], 0); q.r->draw_line(before.v[x.a], before.v[x.c], 0); q.r->draw_line(before.v[x.b], before.v[x.c], 0); } }
	Buf a = s.get(), b = q.get(); for (int y = 0; y < a.Y; y++) for (int x = 0; x < a.X; x++) { if (a.P(x, y) == b.P(x, y) && eqw(a.W(x, y), b.W(x, y), 1e-6)) continue; CHECK(edges, "mesh: pixel (%d,%d) of %d x %d is %06x at %g, and %06x at %g when its triangles are drawn one by one", x, y, a.X, a.Y, a.P(x, y), a.W(x, y), b.P(x, y), b.W(x, y)); CHECK(std::fabs(a.W(x, y) - b.W(x, y)) < 3e-5, "mesh with edges: pixel (%d,%d) is at depth %g, and at %g when drawn one by one", x, y, a.W(x, y), b.W(x, y)); }
}
static void segment(Scene& s, Buf& o, Buf& n, const Point3& p, const Point3& q, int color) {
	int x1, y1, x2, y2; double w1, w2; s.r->_camera.project(p, x1, y1, w1); s.r->_camera.project(q, x2, y2, w2); int dx = x2 - x1, dy = y2 - y1; bool hor = std::abs(dx) > std::abs(dy); int im = std::max(std::abs(dx), std::abs(dy));
	compare(o, n, color, 1e-5, [&](int px, int py) { Frag f; if (im < 1) return f; int k = hor ? (dx > 0 ? px - x1 : x1 - px) : (dy > 0 ? py - y1 : y1 - py); if (k < 0 || k >= im) return f; double v = hor ? y1 + (double)k * dy / im : x1 + (double)k * dx / im; int g = hor ? py : px; f.may = g >= v - 1 - 1e-7 && g <= v + 1e-7; f.must = g > v - 1 + 1e-7 && g < v - 1e-7; if (v == std::round(v) && (k == 0 || (hor ? dy : dx) == 0)) { f.may = g == (int)v; f.must = f.may; } f.d = w1 + (w2 - w1) * k / im; f.tol = 1e-6; return f; }, H::fmt("line %s %s, from (%d,%d) to (%d,%d)", str(p).c_str(), str(q).c_str(), x1, y1, x2, y2).c_str());
}
CASE(line) { Scene s(in); s.noise(in); Point3 p = spot(in, s), q = in.one_in("same", 10) ? p : spot(in, s); int color = in.i("color", 1, 900); Buf o = s.get(); s.r->draw_line(p, q, color); Buf n = s.get(); segment(s, o, n, p, q, color); }
CASE(polyline) { Scene s(in); s.noise(in); Scene q(in, 1); q.X = s.X; q.Y = s.Y; q.pix.reset(new int[s.X * s.Y]); Buf st = s.get(); q.r.reset(new Renderer(q.pix.get(), s.X, s.Y)); q.r->set_camera(0, 0, 0, 0, 0, 0, 0, 1); std::copy(st.p.begin(), st.p.end(), q.pix.get()); std::copy(st.w.begin(), st.w.end(), q.r->_wBuffer); std::vector<Point3> pl; int n = in.i("points", 0, 5); for (int i = 0; i < n; i++) pl.push_back(spot(in, s)); int color = in.i("color", 1, 900); s.r->draw_polyline(pl, color); for (int i = 0; i + 1 < n; i++) q.r->draw_line(pl[i], pl[i + 1], color); Buf a = s.get(), b = q.get(); for (int i = 0; i < s.X * s.Y; i++) CHECK(a.p[i] == b.p[i] && eqw(a.w[i], b.w[i], 1e-6), "polyline of %d points: pixel %d is %d at %g, and %d at %g when drawn line by line", n, i, a.p[i], a.w[i], b.p[i], b.w[i]); }
CASE(point) { Scene s(in); s.noise(in); Point3 p = spot(in, s); int color = in.i("color", 1, 900), x, y; double w; s.r->_camera.project(p, x, y, w); Buf o = s.get(); s.r->draw_pixel(p, color); Buf n = s.get(); compare(o, n, color, 0, [&](int px, int py) { Frag f; f.must = f.may = px == x && py == y; f.d = w; f.tol = 1e-7; return f; }, H::fmt("point %s, projected to (%d,%d)", str(p).c_str(), x, y).c_str()); }
CASE(clearing) { Scene s(in); Buf b = s.get(); for (int i = 0; i < s.X * s.Y; i++) CHECK(b.p[i] == 0 && b.w[i] == 0, "new frame: pixel %d", i); s.noise(in); Buf k = s.get(); int bg = in.i("background", 0, 0xffffff); s.r->set_background(bg); Buf l = s.get(); CHECK(l.p == k.p && l.w == k.w, "setting the background changes pixels"); s.r->clear(); b = s.get(); for (int i = 0; i < s.X * s.Y; i++) CHECK(b.p[i] == bg && b.w[i] == 0, "cleared frame: pixel %d is %d at %g", i, b.p[i], b.w[i]); }
// no access outside, for any points at all: checked by the sanitizer
CASE(anywhere) { Scene s(in); s.r->set_camera(in.num("ox"), in.num("oy"), in.num("oz"), in.num("ahead", 0, 20), in.num("yaw", -180, 180), in.num("pitch", -90, 90), in.num("roll", -180, 180), in.num("zoom", 1, 300)); for (int i = 0; i < 4; i++) { Point3 p[3]; for (auto& q : p) { q = gpt(in, "p"); double e = std::pow(10., in.i("e", -3, 3)); q = mul(q, e); } if (len(crs(sub(p[1], p[0]), sub(p[2], p[0]))) > 1e-6) s.r->draw_triangle_1color(p[0], p[1], p[2], 0xffffff, in.b("two")); s.r->draw_pixel(p[0], 1); int x[2], y[2]; double w; for (int k = 0; k < 2; k++) s.r->_camera.project(p[k], x[k], y[k], w); if (std::abs((double)x[0] - x[1]) < 1e5 && std::abs((double)y[0] - y[1]) < 1e5) s.r->draw_line(p[0], p[1], 2); } }
