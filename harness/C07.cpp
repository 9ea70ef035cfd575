//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp
#include "meshref.h"
#include "MeshKernelLinkedTriangles.h"
#include "MeshKernelTIN.h"

CASE(mesh_histories)
{
	Mesh m; RefMesh r; int steps = in.i("steps", 1, 40);
	CHECK(m.nb_vertices() == 0 && m.nb_triangles() == 0 && m.empty(), "new mesh not empty");
	for (int s = 0; s < steps; s++) {
		int op = in.i("op", 0, 9), nv = (int)r.v.size(), nt = (int)r.t.size();
		if (op <= 1) { Point3 p = gpt(in, "p"); int id = op ? m.add_vertex(p) : m.add_vertex(p._x, p._y, p._z); CHECK(id == nv, "add_vertex returned %d, expected %d", id, nv); r.v.push_back(p); }
		else if (op == 2 && nv) { int i = in.i("i", 0, nv - 1); Point3 p = gpt(in, "p"); m.set_vertex(i, p); r.v[i] = p; }
		else if (op <= 5 && nv) { int a = in.i("a", 0, nv - 1), b = in.i("b", 0, nv - 1), c = in.i("c", 0, nv - 1); int id = m.add_triangle(a, b, c); CHECK(id == nt, "add_triangle returned %d, expected %d", id, nt); r.t.push_back({ a, b, c, false }); }
		else if (op == 6) { Point3 a = gpt(in, "a"), b = gpt(in, "b"), c = gpt(in, "c"); int id = m.add_triangle(a, b, c); CHECK(id == nt, "add_triangle(points) returned %d, expected %d", id, nt); r.v.push_back(a); r.v.push_back(b); r.v.push_back(c); r.t.push_back({ nv, nv + 1, nv + 2, false }); }
		else if (op == 7 && nt) { int i = in.i("u", 0, nt - 1); m.unlink_triangle(i); r.t[i].dead = true; }
		else if (op == 8) { int c = in.i("c", -1, 0xffffff); m.set_color(c); r.color = c; }
		else if (op == 9 && in.one_in("clear", 6)) { m.clear(); r.v.clear(); r.t.clear(); }
		SAMEMESH(m, r, "after step %d (operation %d)", s, op);
		CHECK(m.empty() == r.t.empty(), "empty() with %zu triangles", r.t.size());
		if (!r.t.empty()) {
			int i = in.i("q", 0, (int)r.t.size() - 1); Triangle3 t; m.get_triangle(i, t); Point3 a, b, c; m.get_triangle_vertices(i, a, b, c);
			CHECK(same(t.p1(), r.v[r.t[i].a]) && same(t.p2(), r.v[r.t[i].b]) && same(t.p3(), r.v[r.t[i].c]), "get_triangle %d", i);
			int w[3] = { -7, -7, -7 }; m.get_near_triangles(i, w[0], w[1], w[2]);
			if (!r.t[i].dead) for (int e = 0; e < 3; e++) CHECK(w[e] == -1 || (w[e] >= 0 && w[e] < (int)r.t.size() && w[e] != i && !r.t[w[e]].dead), "neighbour %d of triangle %d is %d", e + 1, i, w[e]);
			CHECK(same(a, t.p1()) && same(b, t.p2()) && same(c, t.p3()), "get_triangle_vertices %d as points", i);
		}
	}
}
template <class K> static void kernel(H::In& in)
{
	K k; RefMesh r; int steps = in.i("steps", 1, 40);
	for (int s = 0; s < steps; s++) {
		int op = in.i("op", 0, 6), nv = (int)r.v.size(), nt = (int)r.t.size();
		if (op <= 1) { Point3 p = gpt(in, "p"); int id = k.add_vertex(p); CHECK(id == nv, "add_vertex returned %d, expected %d", id, nv); r.v.push_back(p); }
		else if (op == 2 && nv) { int i = in.i("i", 0, nv - 1); Point3 p = gpt(in, "p"); k.set_vertex(i, p); r.v[i] = p; }
		else if (op <= 4 && nv) { int a = in.i("a", 0, nv - 1), b = in.i("b", 0, nv - 1), c = in.i("c", 0, nv - 1); int id = k.add_triangle(a, b, c); CHECK(id == nt, "add_triangle returned %d, expected %d", id, nt); r.t.push_back({ a, b, c, false }); }
		else if (op == 5 && nt) { int i = in.i("u", 0, nt - 1); k.unlink_triangle(i); r.t[i].dead = true; }
		else if (op == 6 && in.one_in("clear", 6)) { k.clear(); r.v.clear(); r.t.clear(); }
		CHECK(k.nb_vertices() == (int)r.v.size() && k.nb_triangles() == (int)r.t.size(), "counts %d %d, expected %zu %zu", k.nb_vertices(), k.nb_triangles(), r.v.size(), r.t.size());
		for (size_t i = 0; i < r.v.size(); i++) { Point3 p; k.get_vertex((int)i, p); CHECK(same(p, r.v[i]), "vertex %zu", i); }
		for (size_t i = 0; i < r.t.size(); i++) { int a, b, c; k.get_triangle_vertices((int)i, a, b, c); CHECK(a == r.t[i].a && b == r.t[i].b && c == r.t[i].c && k.is_triangle_unlinked((int)i) == r.t[i].dead, "triangle %zu", i); }
	}
}
CASE(kernel_linked_triangles) { kernel<MeshKernelLinkedTriangles>(in); }
CASE(kernel_tin) { kernel<MeshKernelTIN>(in); }
