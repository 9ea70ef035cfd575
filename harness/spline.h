// Reference rational B-splines: Cox-de Boor basis functions on given knots.
#pragma once
#include "geo.h"
using std::vector;
typedef long double LD;
// clamped knots of degree deg for n points; interior multiplicities up to maxmult
inline vector<double> gknots(H::In& in, const char* name, int deg, int n, int maxmult) {
	vector<double> k; double x = 0; int mult = 1000; for (int i = 0; i <= deg; i++) k.push_back(0);
	bool uni = in.one_in("uniform", 3);
	for (int i = deg + 1; i < n; i++) {
		if (uni) x += 1; else if (mult < maxmult && in.one_in("same", 3)) mult++; else { x += in.uni(name, .2, 1); mult = 1; }
		k.push_back(x);
	}
	x += uni ? 1 : in.uni("last", .2, 1); for (int i = 0; i <= deg; i++) k.push_back(x);
	for (auto& v : k) v /= x; return k;
}
inline vector<LD> basis(const vector<double>& k, int p, double u) {
	int n = (int)k.size() - p - 1, m = (int)k.size() - 1; vector<LD> N(m, 0);
	for (int i = 0; i < m; i++) N[i] = (k[i] < k[i + 1] && k[i] <= u && (u < k[i + 1] || (u == 1 && k[i + 1] == 1))) ? 1 : 0;
	for (int d = 1; d <= p; d++) for (int i = 0; i + d < m; i++) {
		LD a = k[i + d] > k[i] ? ((LD)u - k[i]) / ((LD)k[i + d] - k[i]) * N[i] : 0;
		LD b = k[i + d + 1] > k[i + 1] ? ((LD)k[i + d + 1] - u) / ((LD)k[i + d + 1] - k[i + 1]) * N[i + 1] : 0;
		N[i] = a + b;
	}
	N.resize(n); return N;
}
inline double gpar(H::In& in, const char* n, const vector<double>& k) {
	int m = in.i("where", 0, 5); double u;
	if (m == 0) { u = k[in.i("at", 0, (int)k.size() - 1)]; } else if (m == 1) u = in.b("end"); else u = in.uni(n, 0, 1);
	return u;
}
inline Point3 bspline(const vector<double>& k, int p, const vector<Point3>& P, const vector<double>& w, double u) {
	auto N = basis(k, p, u); LD x = 0, y = 0, z = 0, d = 0;
	for (size_t i = 0; i < N.size(); i++) { LD c = N[i] * w[i]; d += c; x += c * P[i].x(); y += c * P[i].y(); z += c * P[i].z(); }
	return Point3((double)(x / d), (double)(y / d), (double)(z / d));
}
