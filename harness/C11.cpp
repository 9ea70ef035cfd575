//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp MeshUtil.cpp MeshTessellate.cpp Image.cpp ImageUtil.cpp ImageIoBmp.cpp
#define H_TOL 1e-10
#include "meshref.h"
#include "MeshUtil.h"
#include "MeshTessellate.h"
#include <array>
static Point3 tcross(const Point3& a, const Point3& b, const Point3& c) { return crs(sub(b, a), sub(c, a)); }
CASE(tessellate) {
	Mesh m, o; int nv = in.i("nv", 0, 6);
	for (int i = 0; i < nv; i++) m.add_vertex(gpt(in, "v"));
	int nt = nv >= 3 ? in.i("nt", 0, 5) : 0;
	for (int i = 0; i < nt; i++) { int a = in.i("a", 0, nv - 1), b = (a + in.i("b", 1, nv - 1)) % nv, c = in.i("c", 0, nv - 1); while (c == a || c == b) c = (c + 1) % nv; m.add_triangle(a, b, c); }
	for (int i = 0; i < nt; i++) if (in.one_in("rm", 4)) m.unlink_triangle(i);
	if (in.b("full")) { o.add_triangle(gpt(in, "o"), gpt(in, "o"), gpt(in, "o")); o.add_vertex(gpt(in, "o")); }
	int n = in.i("n", 1, 7); RefMesh r = snap(m);
	MeshTessellate t; t.compute(m, n, o); RefMesh q = snap(o);
	SAMEMESH(m, r, "source of the tessellation");
	std::vector<RefMesh::T> live; for (auto& x : r.t) if (!x.dead) live.push_back(x);
	CHECK(q.t.size() == live.size() * n * n, "%zu triangles from %zu live ones cut in %d", q.t.size(), live.size(), n);
	for (size_t k = 0; k < live.size(); k++) {
		Point3 a = r.v[live[k].a], b = r.v[live[k].b], c = r.v[live[k].c], N = tcross(a, b, c); double N2 = dot(N, N);
		if (N2 < 1e-6) continue;
		std::set<std::array<long, 2>> ups, downs;
		for (int i = 0; i < n * n; i++) {
			const auto& x = q.t[k * n * n + i]; CHECK(!x.dead, "removed triangle in the result");
			Point3 p[3] = { q.v[x.a], q.v[x.b], q.v[x.c] };
			Point3 A = tcross(p[0], p[1], p[2]);
			NEARP(mul(A, (double)n * n), N, "oriented area of small triangle %d of triangle %zu (n=%d)", i, k, n);
			long u[3], v[3];
			for (int e = 0; e < 3; e++) {
				double fu = dot(crs(sub(p[e], a), sub(c, a)), N) / N2 * n, fv = dot(crs(sub(b, a), sub(p[e], a)), N) / N2 * n;
				u[e] = std::lround(fu); v[e] = std::lround(fv);
				CHECK(u[e] >= 0 && v[e] >= 0 && u[e] + v[e] <= n, "corner outside the triangle (%g,%g)", fu, fv);
				NEARP(add(a, add(mul(sub(b, a), (double)u[e] / n), mul(sub(c, a), (double)v[e] / n))), p[e], "corner %d of small triangle %d", e, i);
			}
			long mu = std::min(u[0], std::min(u[1], u[2])), Mv = std::min(v[0], std::min(v[1], v[2])), su = u[0] + u[1] + u[2], sv = v[0] + v[1] + v[2];
			// unit lattice triangle: upward if the corners are (mu,Mv) (+1,0) (0,+1)
			bool up = su - 3 * mu == 1 && sv - 3 * Mv == 1, down = su - 3 * mu == 2 && sv - 3 * Mv == 2;
			CHECK(up || down, "small triangle %d is not a cell of the lattice", i);
			CHECK((up ? ups : downs).insert({ mu, Mv }).second, "cell (%ld,%ld) is covered twice", mu, Mv);
		}
	}
}
static void checkgrid(const Mesh& m, int nx, int ny, const std::vector<Point3>& want) {
	RefMesh q = snap(m);
	CHECK((int)q.v.size() == nx * ny, "%zu vertices for a %dx%d grid", q.v.size(), nx, ny);
	for (size_t i = 0; i < want.size(); i++) CHECK(same(q.v[i], want[i]), "vertex %zu of a %dx%d grid is %s, expected %s", i, nx, ny, str(q.v[i]).c_str(), str(want[i]).c_str());
	int cells = nx > 0 && ny > 0 ? (nx - 1) * (ny - 1) : 0;
	CHECK((int)q.t.size() == 2 * cells, "%zu triangles for a %dx%d grid", q.t.size(), nx, ny);
	std::vector<int> area(cells);
	for (auto& t : q.t) {
		CHECK(!t.dead, "removed triangle");
		int v[3] = { t.a, t.b, t.c }, x[3], y[3];
		for (int k = 0; k < 3; k++) { CHECK(v[k] >= 0 && v[k] < nx * ny, "index %d", v[k]); x[k] = v[k] % nx; y[k] = v[k] / nx; }
		int a2 = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]);
		CHECK(a2 == 1, "triangle (%d %d %d) of a %dx%d grid does not face up or is not half a cell", t.a, t.b, t.c, nx, ny);
		int mx = std::min(x[0], std::min(x[1], x[2])), my = std::min(y[0], std::min(y[1], y[2]));
		for (int k = 0; k < 3; k++) CHECK(x[k] <= mx + 1 && y[k] <= my + 1, "triangle (%d %d %d) leaves its cell", t.a, t.b, t.c);
		area[mx + (nx - 1) * my]++;
	}
	for (int i = 0; i < cells; i++) CHECK(area[i] == 2, "cell %d has %d triangles", i, area[i]);
	// the two halves of a cell share the diagonal: no inner edge is unmatched
	auto b = boundary(q);
	for (auto& e : b) { int p = e.first.first, s = e.first.second, px = p % nx, py = p / nx, sx = s % nx, sy = s / nx;
		bool rim = (py == sy && (py == 0 || py == ny - 1) && abs(px - sx) == 1) || (px == sx && (px == 0 || px == nx - 1) && abs(py - sy) == 1);
		CHECK(rim && abs(e.second) == 1, "edge (%d,%d) inside the grid is not matched", p, s); }
}
CASE(heightmap) {
	int nx = in.i("nx", 1, 8), ny = in.i("ny", 1, 8); std::vector<double> z; std::vector<Point3> w;
	for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) { z.push_back(in.num("z")); w.push_back(Point3(x, y, z.back())); }
	Mesh m; if (in.b("full")) randmesh(in, m, 5, 4);
	MeshUtil::create_from_z(z, nx, ny, m); checkgrid(m, nx, ny, w);
}
CASE(grid) {
	int nx = in.i("nx", 1, 8), ny = in.i("ny", 1, 8); std::vector<Point3> w;
	for (int i = 0; i < nx * ny; i++) w.push_back(gpt(in, "p"));
	Mesh m; if (in.b("full")) randmesh(in, m, 5, 4);
	MeshUtil::create_from_grid(w, nx, ny, m); checkgrid(m, nx, ny, w);
}
