#pragma once
#include "geo.h"
#include "Mesh.h"
struct RefMesh {
	struct T { int a, b, c; bool dead; };
	std::vector<Point3> v; std::vector<T> t; int color = -1;
};
inline RefMesh snap(const Mesh& m)
{
	RefMesh r; r.color = m.get_color();
	for (int i = 0; i < m.nb_vertices(); i++) { Point3 p; m.get_vertex(i, p); r.v.push_back(p); }
	for (int i = 0; i < m.nb_triangles(); i++) { RefMesh::T t; m.get_triangle_vertices(i, t.a, t.b, t.c); t.dead = m.is_triangle_unlinked(i); r.t.push_back(t); }
	return r;
}
inline std::string diff(const RefMesh& a, const RefMesh& b, bool color = true)
{
	if (a.v.size() != b.v.size()) return H::fmt("%zu vertices, expected %zu", a.v.size(), b.v.size());
	if (a.t.size() != b.t.size()) return H::fmt("%zu triangles, expected %zu", a.t.size(), b.t.size());
	for (size_t i = 0; i < a.v.size(); i++) if (!same(a.v[i], b.v[i])) return H::fmt("vertex %zu is ", i) + str(a.v[i]) + ", expected " + str(b.v[i]);
	for (size_t i = 0; i < a.t.size(); i++) if (a.t[i].a != b.t[i].a || a.t[i].b != b.t[i].b || a.t[i].c != b.t[i].c || a.t[i].dead != b.t[i].dead)
		return H::fmt("triangle %zu is (%d %d %d)%s, expected (%d %d %d)%s", i, a.t[i].a, a.t[i].b, a.t[i].c, a.t[i].dead ? " removed" : "", b.t[i].a, b.t[i].b, b.t[i].c, b.t[i].dead ? " removed" : "");
	if (color && a.color != b.color) return H::fmt("colour %d, expected %d", a.color, b.color);
	return "";
}
#define SAMEMESH(m, r, ...) do { std::string _d = diff(snap(m), r); if (!_d.empty()) H::fail("harness", __LINE__, H::fmt(__VA_ARGS__) + ": " + _d); } while (0)
// arbitrary mesh (no geometric sense needed): nv vertices, nt triangles, some removed
inline void randmesh(H::In& in, Mesh& m, int maxv = 8, int maxt = 10, bool distinct = false, bool integer = false)
{
	int nv = in.i("nv", distinct ? 3 : 0, maxv);
	for (int i = 0; i < nv; i++) m.add_vertex(integer ? gip(in, "v", -3, 3) : gpt(in, "v"));
	int nt = nv ? in.i("nt", 0, maxt) : 0;
	for (int i = 0; i < nt; i++) {
		int a = in.i("a", 0, nv - 1), b = in.i("b", 0, nv - 1), c = in.i("c", 0, nv - 1);
		if (distinct) { if (b == a) b = (a + 1) % nv; while (c == a || c == b) c = (c + 1) % nv; }
		m.add_triangle(a, b, c);
	}
	for (int i = 0; i < nt; i++) if (in.one_in("rm", 4)) m.unlink_triangle(i);
	if (in.b("col")) m.set_color(in.i("color", 0, 0xffffff));
}
// signed edges of the live triangles: (a,b) counts +1, (b,a) counts -1
inline std::map<std::pair<int, int>, int> boundary(const RefMesh& r, const std::vector<int>* only = nullptr)
{
	std::map<std::pair<int, int>, int> e;
	auto add = [&](int a, int b) { if (a == b) return; int s = 1; if (a > b) { std::swap(a, b); s = -1; } if ((e[{a, b}] += s) == 0) e.erase({ a, b }); };
	auto one = [&](const RefMesh::T& t) { if (t.dead) return; add(t.a, t.b); add(t.b, t.c); add(t.c, t.a); };
	if (only) for (int i : *only) one(r.t[i]); else for (auto& t : r.t) one(t);
	return e;
}
