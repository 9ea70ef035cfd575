#pragma once
#include "h.h"
#include "Geometry.h"
inline Point3 gpt(H::In& in, const char* n, double lo = -10, double hi = 10) { std::string s(n); double x = in.num((s + ".x").c_str(), lo, hi), y = in.num((s + ".y").c_str(), lo, hi), z = in.num((s + ".z").c_str(), lo, hi); return Point3(x, y, z); }
// points with small integer coordinates: many exact coincidences
inline Point3 gip(H::In& in, const char* n, int lo = -2, int hi = 2) { std::string s(n); double x = in.i((s + ".x").c_str(), lo, hi), y = in.i((s + ".y").c_str(), lo, hi), z = in.i((s + ".z").c_str(), lo, hi); return Point3(x, y, z); }
inline double dot(const Point3& a, const Point3& b) { return a._x * b._x + a._y * b._y + a._z * b._z; }
inline Point3 crs(const Point3& a, const Point3& b) { return Point3(a._y * b._z - a._z * b._y, a._z * b._x - a._x * b._z, a._x * b._y - a._y * b._x); }
inline Point3 sub(const Point3& a, const Point3& b) { return Point3(a._x - b._x, a._y - b._y, a._z - b._z); }
inline Point3 add(const Point3& a, const Point3& b) { return Point3(a._x + b._x, a._y + b._y, a._z + b._z); }
inline Point3 mul(const Point3& a, double d) { return Point3(a._x * d, a._y * d, a._z * d); }
inline double len(const Point3& a) { return std::sqrt(dot(a, a)); }
inline bool same(const Point3& a, const Point3& b) { return a._x == b._x && a._y == b._y && a._z == b._z; }
inline bool near(const Point3& a, const Point3& b, double scale = 1, double tol = H_TOL) { double s = scale + len(a) + len(b); return std::fabs(a._x - b._x) <= tol * (1 + s) && std::fabs(a._y - b._y) <= tol * (1 + s) && std::fabs(a._z - b._z) <= tol * (1 + s); }
inline std::string str(const Point3& p) { return H::fmt("(%.10g,%.10g,%.10g)", p._x, p._y, p._z); }
#define NEARP(a, b, ...) do { Point3 _a = (a), _b = (b); if (!near(_a, _b)) H::fail("harness", __LINE__, H::fmt(__VA_ARGS__) + ": " + str(_a) + " vs " + str(_b)); } while (0)
