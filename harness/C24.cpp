//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp STLFile.cpp
#include "Mesh.h"
#include "STLFile.h"
#include "meshref.h"
static std::string slurp(const std::string& f) { std::ifstream s(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>()); }
static std::string name() { return "f" + std::to_string(getpid()) + ".stl"; }
typedef std::array<float, 9> Tri;
static std::vector<Tri> live(const Mesh& m) { std::vector<Tri> r; for (int i = 0; i < m.nb_triangles(); i++) if (!m.is_triangle_unlinked(i)) { Point3 a, b, c; m.get_triangle_vertices(i, a, b, c); r.push_back({ (float)a.x(),(float)a.y(),(float)a.z(),(float)b.x(),(float)b.y(),(float)b.z(),(float)c.x(),(float)c.y(),(float)c.z() }); } return r; }
static bool sameT(const Tri& a, const Tri& b) { return memcmp(a.data(), b.data(), sizeof(float) * 9) == 0; }
static void wide(H::In& in, Mesh& m) { for (int i = 0; i < m.nb_vertices(); i++) if (in.one_in("wide", 3)) { Point3 p; m.get_vertex(i, p); double s = std::pow(10., in.i("e", -12, 12)); m.set_vertex(i, Point3(p.x() * s, p.y() / 3, p.z() * s)); } }
CASE(round_trip) {
	Mesh m; randmesh(in, m); wide(in, m); RefMesh o = snap(m); auto e = live(m); std::string f = name(); CHECK(STLFile::save(f, m), "not saved"); SAMEMESH(m, o, "saving");
	Mesh r; if (in.b("used")) randmesh(in, r); CHECK(STLFile::load(f, r), "not loaded"); unlink(f.c_str()); auto g = live(r); CHECK(g.size() == e.size() && r.nb_triangles() == (int)e.size(), "%zu live triangles out of %d, %d loaded", e.size(), m.nb_triangles(), r.nb_triangles());
	for (size_t i = 0; i < e.size(); i++) CHECK(sameT(e[i], g[i]), "triangle %zu is not the one saved", i);
	for (int i = 0; i < r.nb_triangles(); i++) { Point3 a, b, c; r.get_triangle_vertices(i, a, b, c); double v[9] = { a.x(),a.y(),a.z(),b.x(),b.y(),b.z(),c.x(),c.y(),c.z() }; for (int k = 0; k < 9; k++) CHECK(v[k] == (double)e[i][k], "triangle %d: %.17g instead of %.9g", i, v[k], e[i][k]); }
}
CASE(layout) {
	Mesh m; randmesh(in, m); auto e = live(m); std::string f = name(); CHECK(STLFile::save(f, m), "not saved"); std::string s = slurp(f); unlink(f.c_str()); CHECK(s.size() >= 84, "header"); uint32_t n; memcpy(&n, s.data() + 80, 4); CHECK(n == e.size(), "%u triangles announced, %zu are live of %d", n, e.size(), m.nb_triangles()); CHECK(s.size() == 84 + 50 * (size_t)n, "%zu bytes for %u records", s.size(), n);
	for (size_t i = 0; i < e.size(); i++) { Tri t; memcpy(t.data(), s.data() + 84 + 50 * i + 12, 36); CHECK(sameT(t, e[i]), "record %zu", i); }
}
CASE(truncated) {
	Mesh m; randmesh(in, m); auto e = live(m); std::string f = name(); CHECK(STLFile::save(f, m), "not saved"); std::string s = slurp(f); size_t cut = in.i("cut", 0, (int)s.size()); if (in.b("edge") && s.size() > 84) cut = std::min(s.size(), 84 + 50 * (size_t)in.i("records", 0, (int)e.size()) + in.i("more", 0, 49)); s.resize(cut); { std::ofstream o(f, std::ios::binary); o << s; }
	Mesh r; if (in.b("used")) randmesh(in, r); STLFile::load(f, r); unlink(f.c_str()); size_t whole = cut < 84 ? 0 : (cut - 84) / 50; auto g = live(r);
	CHECK(g.size() <= whole, "a file of %zu bytes (%zu whole records of %zu) gave %zu triangles", cut, whole, e.size(), g.size()); for (size_t i = 0; i < g.size(); i++) CHECK(sameT(g[i], e[i]), "cut at %zu: triangle %zu is not in the file", cut, i);
}
CASE(announced) { // the count announces more, or fewer, records than there are
	Mesh m; randmesh(in, m); auto e = live(m); std::string f = name(); CHECK(STLFile::save(f, m), "not saved"); std::string s = slurp(f); int n = in.i("announced", -3, 2 * (int)e.size() + 3); memcpy(&s[80], &n, 4); { std::ofstream o(f, std::ios::binary); o << s; } Mesh r; STLFile::load(f, r); unlink(f.c_str()); auto g = live(r);
	CHECK((int)g.size() <= std::max(n, 0) && g.size() <= e.size(), "%d announced, %zu present, %zu loaded", n, e.size(), g.size()); if (n >= 0 && n <= (int)e.size()) CHECK((int)g.size() == n, "%d announced and present, %zu loaded", n, g.size()); for (size_t i = 0; i < g.size(); i++) CHECK(sameT(g[i], e[i]), "triangle %zu is not in the file", i);
}
CASE(errors) { Mesh m; randmesh(in, m); CHECK(!STLFile::save("no/such/folder/f.stl", m), "a file in a missing folder was saved"); CHECK(!STLFile::load("no/such/file.stl", m), "a missing file was loaded"); }
