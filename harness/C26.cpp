//@srcs Geometry.cpp Mesh.cpp MeshKernel.cpp MeshKernelLinkedTriangles.cpp MeshKernelTIN.cpp MeshKernelHalfEdge.cpp Transform.cpp NurbsCurve.cpp NurbsSurface.cpp NurbsSolid.cpp StepFile.cpp
#include "Mesh.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "StepFile.h"
#include "meshref.h"
#include "spline.h"
#include <map>
static std::string name(int k = 0) { return "f" + std::to_string(getpid()) + "_" + std::to_string(k) + ".stp"; }
static NurbsSurface gsurf(H::In& in) {
	NurbsSurface s; int du = in.i("du", 0, 3), dv = in.i("dv", 0, 3), nu = du + 1 + in.small("eu", 0, 5), nv = dv + 1 + in.small("ev", 0, 5);
	vector<Point3> p; vector<double> w; for (int i = 0; i < nu * nv; i++) { p.push_back(gpt(in, "p")); w.push_back(in.num("w", .3, 3)); }
	s.set_degree(du, dv); s.set_points(p, nu, nv); s.set_weights(w); s.set_knots_u(gknots(in, "ku", du, nu, std::max(1, du))); s.set_knots_v(gknots(in, "kv", dv, nv, std::max(1, dv))); s.set_closed_u(in.b("cu")); s.set_closed_v(in.b("cv")); return s;
}
// a value of the file: a number, a reference, a word, a string, or a list (with the name of its entity)
struct Val { int kind = 0; double n = 0; long ref = 0; std::string w; std::vector<Val> l; };
struct Reader {
	std::string s; size_t p = 0; std::vector<long> refs;
	void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
	bool is(char c) { ws(); return p < s.size() && s[p] == c; }
	void eat(char c) { CHECK(is(c), "'%c' expected at '%s'", c, s.substr(p, 40).c_str()); p++; }
	long num() { ws(); char* e; long v = strtol(s.c_str() + p, &e, 10); CHECK(e != s.c_str() + p, "number expected at '%s'", s.substr(p, 40).c_str()); p = e - s.c_str(); return v; }
	std::string word() { ws(); size_t q = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || strchr("_.-$", s[p]))) p++; CHECK(p > q, "word expected at '%s'", s.substr(p, 40).c_str()); return s.substr(q, p - q); }
	std::vector<Val> list() { std::vector<Val> v; eat('('); if (is(')')) { p++; return v; } for (;;) { v.push_back(val()); if (is(')')) { p++; return v; } eat(','); } }
	Val val() { Val v; ws(); char c = p < s.size() ? s[p] : 0; if (c == '(') { v.kind = 4; v.l = list(); } else if (c == '#') { p++; v.kind = 2; v.ref = num(); refs.push_back(v.ref); } else if (c == '\'') { size_t q = s.find('\'', p + 1); CHECK(q != std::string::npos, "string not closed"); v.kind = 3; v.w = s.substr(p + 1, q - p - 1); p = q + 1; } else if (isdigit((unsigned char)c) || c == '-' || c == '+') { char* e; v.kind = 1; v.n = strtod(s.c_str() + p, &e); CHECK(e != s.c_str() + p, "number expected at '%s'", s.substr(p, 40).c_str()); p = e - s.c_str(); } else { v.kind = 3; v.w = word(); } return v; }
	Val entity() { Val v; v.kind = 5; v.w = word(); v.l = list(); return v; }
};
typedef std::vector<Val> Ent; // one or more named parts
static bool prt(double a, double b) { return std::fabs(a - b) <= 1e-5 * std::fabs(b) + 1e-300; }
struct File { std::vector<std::pair<long, Ent>> e; std::map<long, size_t> at; };
static File parse(const std::string& f) {
	std::ifstream i(f); std::string s((std::istreambuf_iterator<char>(i)), {}); size_t a = s.find("DATA;"), h = s.find("ISO-10303-21;"); CHECK(h == 0, "the file does not start with its format"); CHECK(a != std::string::npos, "no data section"); size_t z = s.find("ENDSEC;", a); CHECK(z != std::string::npos && s.find("END-ISO-10303-21;", z) != std::string::npos, "the file is not closed");
	Reader r; r.s = s.substr(a + 5, z - a - 5); File o; r.ws(); while (r.p < r.s.size()) { r.eat('#'); long id = r.num(); r.eat('='); Ent e; if (r.is('(')) { r.p++; while (!r.is(')')) e.push_back(r.entity()); r.p++; } else e.push_back(r.entity()); r.eat(';'); CHECK(!o.at.count(id), "id %ld is defined twice", id); o.at[id] = o.e.size(); o.e.push_back({ id,e }); r.ws(); }
	for (long x : r.refs) CHECK(o.at.count(x), "reference to id %ld, which is not defined", x); return o;
}
static const Val* part(const Ent& e, const char* n) { for (auto& v : e) if (v.w == n) return &v; return nullptr; }
static void surface(const File& f, const NurbsSurface& s, long id, const Ent& e, int k) {
	auto b = part(e, "B_SPLINE_SURFACE"), q = part(e, "B_SPLINE_SURFACE_WITH_KNOTS"), w = part(e, "RATIONAL_B_SPLINE_SURFACE"); CHECK(b && q && w && b->l.size() == 7 && q->l.size() == 5 && w->l.size() == 1, "surface %d: parts", k);
	int nu = s.nb_points_u(), nv = s.nb_points_v(), d[2] = { s.degree_u(),s.degree_v() }, n[2] = { nu,nv }; CHECK(b->l[0].n == d[0] && b->l[1].n == d[1], "surface %d: degrees %g %g instead of %d %d", k, b->l[0].n, b->l[1].n, d[0], d[1]);
	CHECK((b->l[4].w == ".T.") == s.is_closed_u() && (b->l[5].w == ".T.") == s.is_closed_v(), "surface %d: closed", k);
	CHECK((int)b->l[2].l.size() == nv && (int)w->l[0].l.size() == nv, "surface %d: %zu rows of points and %zu of weights instead of %d", k, b->l[2].l.size(), w->l[0].l.size(), nv);
	for (int j = 0; j < nv; j++) { auto& R = b->l[2].l[j].l; auto& W = w->l[0].l[j].l; CHECK((int)R.size() == nu && (int)W.size() == nu, "surface %d: row %d has %zu points and %zu weights instead of %d", k, j, R.size(), W.size(), nu); for (int i = 0; i < nu; i++) { CHECK(R[i].kind == 2, "surface %d: point (%d,%d) is not a reference", k, i, j); auto& E = f.e[f.at.at(R[i].ref)].second; CHECK(E.size() == 1 && E[0].w == "CARTESIAN_POINT" && E[0].l.size() == 2 && E[0].l[1].l.size() == 3, "surface %d: point (%d,%d) refers to something else", k, i, j); auto& c = E[0].l[1].l; Point3 p = s.points()[i + nu * j]; CHECK(prt(c[0].n, p.x()) && prt(c[1].n, p.y()) && prt(c[2].n, p.z()), "surface %d: point (%d,%d) is (%g,%g,%g) instead of %s", k, i, j, c[0].n, c[1].n, c[2].n, str(p).c_str()); CHECK(prt(W[i].n, s.weights()[i + nu * j]), "surface %d: weight (%d,%d) is %g instead of %g", k, i, j, W[i].n, s.weights()[i + nu * j]); } }
	for (int a = 0; a < 2; a++) { auto& M = q->l[a].l; auto& K = q->l[2 + a].l; auto kn = a ? s.knots_v() : s.knots_u(); CHECK(M.size() == K.size(), "surface %d: %zu multiplicities for %zu knots", k, M.size(), K.size()); std::vector<double> x; for (size_t i = 0; i < M.size(); i++) { CHECK(M[i].n >= 1, "surface %d: multiplicity %g", k, M[i].n); for (int t = 0; t < M[i].n; t++) x.push_back(K[i].n); } CHECK((int)x.size() == n[a] + d[a] + 1, "surface %d: %zu knots in direction %d for %d points of degree %d", k, x.size(), a, n[a], d[a]); for (size_t i = 0; i < x.size(); i++) CHECK(prt(x[i], kn[i]), "surface %d: knot %zu of direction %d is %g instead of %g", k, i, a, x[i], kn[i]); }
	// its own face, shell, solid and shape
	const char* names[] = { "ADVANCED_FACE","CLOSED_SHELL","MANIFOLD_SOLID_BREP","ADVANCED_BREP_SHAPE_REPRESENTATION","SHAPE_REPRESENTATION_RELATIONSHIP" }; long of = id;
	std::function<bool(const Val&, long)> refers = [&](const Val& v, long x) { if (v.kind == 2 && v.ref == x) return true; for (auto& y : v.l) if (refers(y, x)) return true; return false; };
	for (auto nm : names) { long hit = 0; int c = 0; for (auto& E : f.e) if (E.second.size() == 1 && E.second[0].w == nm && refers(E.second[0], of)) { hit = E.first; c++; } CHECK(c == 1, "surface %d: %d entities %s refer to #%ld", k, c, nm, of); of = hit; }
}
CASE(history) {
	StepWriter w; int files = in.one_in("two", 3) ? 2 : 1;
	for (int k = 0; k < files; k++) {
		w.open(name(k)); CHECK(w.is_open(), "not open"); int n = in.i("objects", 0, 3); std::vector<NurbsSurface> all;
		for (int j = 0; j < n; j++) if (in.b("surface")) { NurbsSurface s = gsurf(in); w.write(s); all.push_back(s); } else { NurbsSolid s; int c = in.i("faces", 0, 3); for (int i = 0; i < c; i++) { NurbsSurface q = gsurf(in); s.add_surface(q); all.push_back(q); } w.write(s); }
		if (k == 0 && files == 1 && in.b("destroyed")) { StepWriter x; x.open(name(5)); for (auto& s : all) x.write(s); w.close(); unlink(name(k).c_str()); { StepWriter y; y.open(name(k)); for (auto& s : all) y.write(s); } x.close(); unlink(name(5).c_str()); }
		w.close(); CHECK(!w.is_open(), "not closed"); File f = parse(name(k)); unlink(name(k).c_str());
		size_t q = 0; for (auto& e : f.e) if (part(e.second, "B_SPLINE_SURFACE")) { CHECK(q < all.size(), "more than %zu surfaces", all.size()); surface(f, all[q], e.first, e.second, (int)q); q++; } CHECK(q == all.size(), "%zu surfaces instead of %zu", q, all.size());
	}
}
CASE(errors) { StepWriter w; CHECK(!w.is_open(), "open"); w.close(); w.open("no/such/folder/f.stp"); CHECK(!w.is_open(), "a file in a missing folder is open"); w.close(); }
