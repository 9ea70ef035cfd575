//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp OBJFile.cpp
#include "Mesh.h"
#include "OBJFile.h"
#include "meshref.h"
static std::string name(int k = 0) { return "f" + std::to_string(getpid()) + "_" + std::to_string(k) + ".obj"; }
struct Obj { std::vector<std::vector<double>> v; std::vector<std::array<long, 3>> f; std::vector<std::vector<long>> l; };
static Obj parse(const std::string& f) {
	Obj o; std::ifstream s(f); std::string line; while (std::getline(s, line)) {
		std::stringstream ss(line); std::string k; if (!(ss >> k)) continue; CHECK(k == "v" || k == "f" || k == "l", "line '%s'", line.c_str());
		std::vector<double> n; std::string w; while (ss >> w) { char* e; double d = strtod(w.c_str(), &e); CHECK(*e == 0, "line '%s'", line.c_str()); n.push_back(d); }
		if (k == "v") { CHECK(n.size() == 3 || n.size() == 6, "line '%s'", line.c_str()); o.v.push_back(n); } else if (k == "f") { CHECK(n.size() == 3, "line '%s'", line.c_str()); o.f.push_back({ (long)n[0],(long)n[1],(long)n[2] }); } else { o.l.emplace_back(); for (double d : n) o.l.back().push_back((long)d); }
	} return o;
}
static bool prt(double a, double b) { return std::fabs(a - b) <= 1e-5 * std::fabs(b) + 1e-300; }
static void vertex(const std::vector<double>& l, const Point3& p, int color, size_t i) {
	CHECK(prt(l[0], p.x()) && prt(l[1], p.y()) && prt(l[2], p.z()), "vertex %zu is (%g,%g,%g) instead of %s", i, l[0], l[1], l[2], str(p).c_str()); CHECK((l.size() == 6) == (color != -1), "vertex %zu: colour written for colour %d: %d", i, color, l.size() == 6);
	if (color != -1) { double e[3] = { ((color >> 16) & 255) / 255.,((color >> 8) & 255) / 255.,(color & 255) / 255. }; for (int k = 0; k < 3; k++) CHECK(std::fabs(l[3 + k] - e[k]) < 1e-5, "colour %08x: channel %d is %g instead of %g", color, k, l[3 + k], e[k]); }
}
static void gmesh(H::In& in, Mesh& m) { randmesh(in, m); if (in.one_in("alpha", 3)) m.set_color((int)(in.next() & 0xffffffffu)); if (in.one_in("wide", 3)) for (int i = 0; i < m.nb_vertices(); i++) { Point3 p; m.get_vertex(i, p); double s = std::pow(10., in.i("e", -9, 9)); m.set_vertex(i, Point3(p.x() * s, p.y(), p.z() / 3)); } }
CASE(history) {
	OBJWriter w; int files = in.one_in("two", 3) ? 2 : 1;
	for (int k = 0; k < files; k++) {
		w.open(name(k)); CHECK(w.is_open(), "not open"); int n = in.i("objects", 0, 4); std::vector<std::vector<double>> dummy; size_t nv = 0, nf = 0, nl = 0; std::vector<std::function<void(const Obj&)>> checks;
		for (int j = 0; j < n; j++) {
			if (in.b("mesh")) { Mesh m; gmesh(in, m); RefMesh r = snap(m); w.write(m); SAMEMESH(m, r, "writing"); size_t b = nv, fb = nf; checks.push_back([=](const Obj& o) { for (size_t i = 0; i < r.v.size(); i++) vertex(o.v[b + i], r.v[i], r.color, b + i); size_t q = fb; for (auto& t : r.t) if (!t.dead) { auto& f = o.f[q]; CHECK(f[0] == (long)b + 1 + t.a && f[1] == (long)b + 1 + t.b && f[2] == (long)b + 1 + t.c, "object %d: face %zu is (%ld %ld %ld) instead of (%ld %ld %ld)", j, q, f[0], f[1], f[2], b + 1 + t.a, b + 1 + t.b, b + 1 + t.c); q++; } }); nv += r.v.size(); for (auto& t : r.t) nf += !t.dead; }
			else { std::vector<Point3> p; int c = in.i("points", 0, 6); for (int i = 0; i < c; i++) p.push_back(gpt(in, "p")); w.write(p); size_t b = nv, lb = nl; checks.push_back([=](const Obj& o) { for (size_t i = 0; i < p.size(); i++) vertex(o.v[b + i], p[i], -1, b + i); auto& l = o.l[lb]; CHECK(l.size() == p.size(), "object %d: the polyline has %zu references for %zu points", j, l.size(), p.size()); for (size_t i = 0; i < p.size(); i++) CHECK(l[i] == (long)(b + 1 + i), "object %d: reference %zu is %ld instead of %zu", j, i, l[i], b + 1 + i); }); nv += c; nl++; }
		}
		w.close(); CHECK(!w.is_open(), "not closed"); Obj o = parse(name(k)); unlink(name(k).c_str()); CHECK(o.v.size() == nv && o.f.size() == nf && o.l.size() == nl, "file %d: %zu vertices, %zu faces, %zu polylines instead of %zu, %zu, %zu", k, o.v.size(), o.f.size(), o.l.size(), nv, nf, nl); for (auto& c : checks) c(o);
	}
}
CASE(round_trip) {
	Mesh m; gmesh(in, m); RefMesh r = snap(m); std::string f = name(); CHECK(OBJFile::save(f, m), "not saved"); SAMEMESH(m, r, "saving"); Mesh b; if (in.b("used")) randmesh(in, b); CHECK(OBJFile::load(f, b), "not loaded"); unlink(f.c_str()); RefMesh g = snap(b);
	CHECK(g.v.size() == r.v.size(), "%zu vertices loaded instead of %zu", g.v.size(), r.v.size()); for (size_t i = 0; i < r.v.size(); i++) CHECK(prt(g.v[i].x(), r.v[i].x()) && prt(g.v[i].y(), r.v[i].y()) && prt(g.v[i].z(), r.v[i].z()), "vertex %zu is %s instead of %s", i, str(g.v[i]).c_str(), str(r.v[i]).c_str());
	size_t q = 0; for (auto& t : r.t) if (!t.dead) { CHECK(q < g.t.size(), "%zu triangles loaded", g.t.size()); CHECK(g.t[q].a == t.a && g.t[q].b == t.b && g.t[q].c == t.c && !g.t[q].dead, "triangle %zu is (%d %d %d) instead of (%d %d %d)", q, g.t[q].a, g.t[q].b, g.t[q].c, t.a, t.b, t.c); q++; } CHECK(q == g.t.size(), "%zu triangles loaded, %zu are live", g.t.size(), q);
}
CASE(reader) { // a well-formed file with comments, blank lines, no newline at the end
	std::string s; RefMesh e; int n = in.i("lines", 0, 20); for (int i = 0; i < n; i++) { int k = in.i("kind", 0, 4); char b[200] = ""; if (k == 0) snprintf(b, sizeof b, "# v 1 2 3"); else if (k == 1) snprintf(b, sizeof b, "o part"); else if (k == 4 && e.v.size()) { int a[3]; for (int& x : a) x = in.i("ix", 1, (int)e.v.size()); snprintf(b, sizeof b, "f %d %d %d", a[0], a[1], a[2]); e.t.push_back({ a[0] - 1,a[1] - 1,a[2] - 1,false }); } else if (k != 2) { Point3 p = gpt(in, "p"); snprintf(b, sizeof b, "v %.17g %.17g %.17g", p.x(), p.y(), p.z()); e.v.push_back(p); } s += b; if (i + 1 < n || in.b("nl")) s += "\n"; }
	std::string f = name(); { std::ofstream o(f); o << s; } Mesh m; if (in.b("used")) randmesh(in, m); bool ok = OBJFile::load(f, m); unlink(f.c_str()); CHECK(ok, "not loaded"); RefMesh g = snap(m); g.color = e.color; std::string d = diff(g, e); CHECK(d.empty(), "%s", d.c_str());
}
CASE(errors) { Mesh m; randmesh(in, m); CHECK(!OBJFile::save("no/such/folder/f.obj", m), "a file in a missing folder was saved"); CHECK(!OBJFile::load("no/such/file.obj", m), "a missing file was loaded"); OBJWriter w; w.open("no/such/folder/f.obj"); CHECK(!w.is_open(), "open"); }
