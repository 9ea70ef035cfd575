//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp Renderer.cpp RendererCamera.cpp RendererLight.cpp
#include <vector>
#include <string>
#include <memory>
#include <map>
#include <sstream>
#include <fstream>
#include <cmath>
#define private public
#include "Renderer.h"
#undef private
#include "Transform.h"
#include "geo.h"
static const double LIM = 1 << 28;
struct Cam { double o[3], ahead, a[3], zoom; int X, Y; };
static Cam gcam(H::In& in) { Cam c; for (auto& x : c.o) x = in.one_in("o0", 3) ? 0 : in.num("o"); c.ahead = in.num("ahead", 0, 40); for (auto& x : c.a) x = in.one_in("a0", 3) ? 0 : in.num("angle", -360, 360); c.zoom = in.one_in("unit", 4) ? 1 : in.num("zoom", .1, 900); c.X = in.i("width", 1, 60); c.Y = in.i("height", 1, 60); return c; }
static Point3 local(const Cam& c, const Point3& p) { Point3 q(p.x() - c.o[0], p.y() - c.o[1], p.z() - c.o[2]); RotationEulerAngles(c.a[0], c.a[1], c.a[2]).apply(q); return Point3(q.x(), q.y(), q.z() + c.ahead); }
static Point3 world(const Cam& c, const Point3& l) { // inverse, column by column
	RotationEulerAngles R(c.a[0], c.a[1], c.a[2]); Point3 e[3] = { Point3(1,0,0),Point3(0,1,0),Point3(0,0,1) }; for (auto& x : e) R.apply(x); Point3 q(l.x(), l.y(), l.z() - c.ahead); return Point3(dot(e[0], q) + c.o[0], dot(e[1], q) + c.o[1], dot(e[2], q) + c.o[2]);
}
struct Eye { std::unique_ptr<int[]> pix; std::unique_ptr<Renderer> r; RendererCamera* c; Eye(const Cam& k) { pix.reset(new int[k.X * k.Y]); r.reset(new Renderer(pix.get(), k.X, k.Y)); set(k); c = &r->_camera; } void set(const Cam& k) { r->set_camera(k.o[0], k.o[1], k.o[2], k.ahead, k.a[0], k.a[1], k.a[2], k.zoom); } };
static void expect(double v, int got, const char* what) { if (!(std::fabs(v) < 1e300)) return; if (v >= LIM) { CHECK(got >= LIM - 1, "%s is %d instead of %g", what, got, v); return; } if (v <= -LIM) { CHECK(got <= 1 - LIM, "%s is %d instead of %g", what, got, v); return; } CHECK(std::fabs(got - v) <= .5 + 1e-9 * (1 + std::fabs(v)), "%s is %d instead of %.12g rounded", what, got, v); }
CASE(projection) {
	Cam k = gcam(in); Eye e(k); if (in.b("again")) { k.zoom = in.num("zoom2", .1, 900); k.a[0] += 30; k.ahead += 1; e.set(k); } Point3 p = gpt(in, "p"); if (in.one_in("front", 2)) { double z = in.num("z", .01, 50), s = z / k.zoom; p = world(k, Point3(in.num("x", -80, 80) * s, in.num("y", -80, 80) * s, z)); }
	Point3 l = local(k, p), m = e.c->local_ref(p); NEARP(m, l, "camera space position of %s", str(p).c_str()); int x = 4, y = 5; double w = 7; e.c->project(p, x, y, w); if (m.z() <= 0) SKIP();
	expect(m.x() * k.zoom / m.z() + k.X / 2, x, H::fmt("column of %s, in camera space %s, frame %d x %d zoom %g:", str(p).c_str(), str(m).c_str(), k.X, k.Y, k.zoom).c_str()); expect(m.y() * k.zoom / m.z() + k.Y / 2, y, H::fmt("row of %s, in camera space %s, frame %d x %d zoom %g:", str(p).c_str(), str(m).c_str(), k.X, k.Y, k.zoom).c_str());
	CHECK(std::fabs(w * m.z() - 1) < 1e-9, "depth of %s, in camera space %s, is %g", str(p).c_str(), str(m).c_str(), w);
}
CASE(rays) {
	Cam k = gcam(in); Eye e(k); double z = in.num("z", .1, 30), s = z / k.zoom; Point3 l(in.num("x", -80, 80) * s, in.num("y", -80, 80) * s, z); double f = in.num("f", 1.01, 8); Point3 p = world(k, l), q = world(k, mul(l, f)); int x[2], y[2]; double w[2]; e.c->project(p, x[0], y[0], w[0]); e.c->project(q, x[1], y[1], w[1]); CHECK(w[0] > w[1] && w[1] > 0, "depths %g and %g at distances %g and %g", w[0], w[1], z, z * f);
	double u = l.x() * k.zoom / l.z(), v = l.y() * k.zoom / l.z(); auto tie = [](double a) { a += .5; return std::fabs(a - std::round(a)) < 1e-6; }; if (tie(u) || tie(v)) SKIP(); CHECK(x[0] == x[1] && y[0] == y[1], "points %s and %s of one ray are at (%d,%d) and (%d,%d)", str(p).c_str(), str(q).c_str(), x[0], y[0], x[1], y[1]);
}
CASE(plane) { Cam k = gcam(in); for (auto& a : k.a) a = 0; k.o[2] = 0; k.ahead = 0; Eye e(k); Point3 p(in.num("x"), in.num("y"), 0); int x = 0, y = 0; double w = 3; e.c->project(p, x, y, w); CHECK(w == 0, "depth in the plane of the camera is %g", w); CHECK(std::fabs((double)x) <= LIM && std::fabs((double)y) <= LIM, "position (%d,%d)", x, y); Point3 q(0, 0, in.num("z", .1, 20)); k.o[0] = k.o[1] = 0; e.set(k); e.c->project(q, x, y, w); CHECK(x == k.X / 2 && y == k.Y / 2, "straight ahead is (%d,%d) in a frame of %d x %d", x, y, k.X, k.Y); }
CASE(lights) {
	Cam k{ {0,0,0},0,{0,0,0},1,1,1 }; Eye e(k); int n = in.i("lights", 0, 5); struct Lt { bool amb; int col; double f; Point3 d; }; std::vector<Lt> ls; for (int i = 0; i < n; i++) { Lt t; t.amb = in.b("ambient"); t.col = (in.i("r", 0, 255) << 16) + (in.i("g", 0, 255) << 8) + in.i("b", 0, 255); if (in.one_in("pure", 3)) t.col &= 0xff << 8 * in.i("ch", 0, 2); t.f = in.num("factor", 0, 1.5); t.d = gpt(in, "d", -1, 1); ls.push_back(t); if (t.amb) e.r->add_ambient_light(t.col, t.f); else e.r->add_diffuse_light(t.col, t.f, t.d); }
	auto shade = [&](int col, const Point3& nn) {
		int out = e.r->compute_color_with_lights(col, nn); CHECK(out >= 0 && out <= 0xffffff, "colour %x", out);
		for (int s = 0; s < 24; s += 8) { double a = ((col >> s) & 255) / 256., t = 0; for (auto& l : ls) t += a * ((l.col >> s) & 255) / 256. * l.f * (l.amb ? 1 : std::max(0., dot(nn, l.d))); t *= 256; int o = (out >> s) & 255; CHECK(t >= 254.5001 ? o == 255 : std::fabs(o - t) <= .50001, "channel %d of face %06x, normal %s, %d lights: %d instead of %g", s / 8, col, str(nn).c_str(), (int)ls.size(), o, t); }
	};
	for (int q = 0; q < 3; q++) {
		int col = (in.i("r", 0, 255) << 16) + (in.i("g", 0, 255) << 8) + in.i("b", 0, 255); Point3 nn = gpt(in, "n", -1, 1); double L = len(nn); if (L < 1e-3) SKIP(); nn = mul(nn, 1 / L);
		shade(col, nn); shade(col, nn);
		if (in.one_in("more", 3)) { Lt t; t.amb = in.b("ambient2"); t.col = in.i("light2", 0, 0xffffff); t.f = in.num("factor2", 0, 1.5); t.d = gpt(in, "d2", -1, 1); ls.push_back(t); if (t.amb) e.r->add_ambient_light(t.col, t.f); else e.r->add_diffuse_light(t.col, t.f, t.d); shade(col, nn); }
	}
}
CASE(one_light) {
	int col = in.i("color", 0, 0xffffff); double f = in.num("factor", 0, 2); Point3 d = gpt(in, "d", -1, 1), n = gpt(in, "n", -1, 1), n0 = n; RendererLightAmbiant a(col, f); RendererLightDiffuse b(col, f, d); RendererLight* l[2] = { &a,&b };
	for (int k = 0; k < 2; k++) for (int again = 0; again < 2; again++) { double c[3] = { in.unit(),in.unit(),in.unit() }, o[3] = { c[0],c[1],c[2] }; l[k]->apply(o[0], o[1], o[2], n); for (int s = 0; s < 3; s++) { double e = c[s] * f * ((col >> (16 - 8 * s)) & 255) / 256. * (k ? std::max(0., dot(n0, d)) : 1); CLOSE(o[s], e, "channel %d of %s light %06x", s, k ? "a directional" : "an ambient", col); } CHECK(same(n, n0), "normal changed"); }
}
CASE(lit_triangle) { // the colour drawn is that of the face lit from its own normal
	Cam k{ {0,0,0},0,{0,0,0},1,9,9 }; Eye e(k); Point3 d = gpt(in, "d", -1, 1); int lc = in.i("light", 0, 0xffffff); e.r->add_diffuse_light(lc, 1, d); if (in.b("ambient")) e.r->add_ambient_light(0x404040); auto at = [](double x, double y, double z) { return Point3((x - 4) * z, (y - 4) * z, z); }; Point3 A = at(-9, -9, in.num("z1", 1, 4)), B = at(30, -9, in.num("z2", 1, 4)), C = at(-9, 30, in.num("z3", 1, 4)); if (in.b("flip")) std::swap(B, C); int col = in.i("color", 0, 0xffffff); bool two = in.b("two"); for (int i = 0; i < 81; i++) e.pix[i] = -1; bool drawn = e.r->draw_triangle_1color(A, B, C, col, two); Point3 n = crs(sub(B, A), sub(C, A)); n = mul(n, 1 / len(n)); int lit = e.r->compute_color_with_lights(col, n); int g = e.pix[4 * 9 + 4]; if (!drawn) { CHECK(g == -1 && !two, "not drawn"); return; } for (int s = 0; s < 24; s += 8) CHECK(std::abs(((g >> s) & 255) - ((lit >> s) & 255)) <= 1, "the face has colour %06x instead of %06x", g, lit);
}
CASE(new_camera) { alignas(RendererCamera) unsigned char raw[sizeof(RendererCamera)]; memset(raw, in.i("junk", 0, 255), sizeof raw); RendererCamera* c = new (raw) RendererCamera; Point3 p = gpt(in, "p"); NEARP(c->local_ref(p), Point3(p.x(), -p.y(), p.z()), "position seen by a new camera"); c->~RendererCamera(); }
