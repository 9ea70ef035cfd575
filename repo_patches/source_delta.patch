From 508d3637e8b5abe023068058de38c61bb49610ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:33 +0000
Subject: [PATCH 01/26] fix: Triangle3::contains accepted points on the line
 (p2,p3) outside of the segment

---
 src/Geometry.cpp | 1212 +++++++++++++++++++++++-----------------------
 1 file changed, 608 insertions(+), 604 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index a2b87d8..928a265 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -1,604 +1,608 @@
-#include "Geometry.h"
-
-#include <cmath>
-
-inline double squared(double a) //todo factorize ?
-{
-	return a * a;
-}
-
-///////////////////////////////////////////////////////////////////////////
-Point3::Point3()
-{
-	_x = 0.; _y = 0.; _z = 0.;
-}
-
-Point3::Point3(double x, double y, double z)
-{
-	_x = x; _y = y; _z = z;
-}
-
-
-double& Point3::x()
-{
-	return _x;
-}
-
-double& Point3::y()
-{
-	return _y;
-}
-
-double& Point3::z()
-{
-	return _z;
-}
-
-const double& Point3::x() const
-{
-	return _x;
-}
-
-const double& Point3::y() const
-{
-	return _y;
-}
-
-const double& Point3::z() const
-{
-	return _z;
-}
-
-
-Point3& Point3::operator+=(const Point3& p)
-{
-	_x += p._x;
-	_y += p._y;
-	_z += p._z;
-
-	return *this;
-}
-
-Point3& Point3::operator-=(const Point3& p)
-{
-	_x -= p._x;
-	_y -= p._y;
-	_z -= p._z;
-
-	return *this;
-}
-
-Point3& Point3::operator*=(double d)
-{
-	_x *= d;
-	_y *= d;
-	_z *= d;
-
-	return *this;
-}
-
-Point3& Point3::operator/=(double d)
-{
-	_x /= d;
-	_y /= d;
-	_z /= d;
-
-	return *this;
-}
-
-
-Point3 Point3::operator+(const Point3& p) const
-{
-	Point3 res;
-
-	res._x = _x + p._x;
-	res._y = _y + p._y;
-	res._z = _z + p._z;
-
-	return res;
-}
-
-Point3 Point3::operator*(double d) const
-{
-	Point3 res;
-
-	res._x = d * _x;
-	res._y = d * _y;
-	res._z = d * _z;
-
-	return res;
-}
-
-Point3 Point3::operator/(double d) const
-{
-	Point3 res;
-
-	res._x = _x / d;
-	res._y = _y / d;
-	res._z = _z / d;
-
-	return res;
-}
-
-Point3 Point3::operator-(const Point3& p) const
-{
-	Point3 res;
-
-	res._x = _x - p._x;
-	res._y = _y - p._y;
-	res._z = _z - p._z;
-
-	return res;
-}
-
-double Point3::distance_square(const Point3& p) const
-{
-	return squared(_x - p._x) + squared(_y - p._y) + squared(_z - p._z);
-}
-
-double Point3::dot_product(const Point3& p) const
-{
-	return _x * p._x + _y * p._y + _z * p._z;
-}
-
-Point3 Point3::cross_product(const Point3& p) const
-{
-	// from https://en.wikipedia.org/wiki/Cross_product
-	return Point3(_y * p._z - _z * p._y, _z * p._x - _x * p._z, _x * p._y - _y * p._x);
-}
-
-double Point3::norm() const
-{
-	return sqrt(_x * _x + _y * _y + _z * _z);
-}
-
-double Point3::norm_square() const
-{
-	return _x * _x + _y * _y + _z * _z;
-}
-
-Point3 Point3::normalized() const
-{
-	double d = 1. / norm();
-	return this->operator*(d);
-}
-void Point3::normalize()
-{
-	double d = 1. / norm();
-	this->operator*=(d);
-}
-///////////////////////////////////////////////////////////////////////////
-Line3::Line3()
-{
-}
-
-Line3::Line3(const Point3& p1, const Point3& p2) :
-	_p1(p1),
-	_p2(p2)
-{
-}
-
-const Point3& Line3::p1() const
-{
-	return _p1;
-}
-
-const Point3& Line3::p2() const
-{
-	return _p2;
-}
-
-void Line3::set_p1(const Point3& p)
-{
-	_p1 = p;
-}
-
-void Line3::set_p2(const Point3& p)
-{
-	_p2 = p;
-}
-///////////////////////////////////////////////////////////////////////////
-Segment3::Segment3()
-{
-}
-
-Segment3::Segment3(const Point3& p1, const Point3& p2) :
-	_p1(p1),
-	_p2(p2)
-{
-}
-
-const Point3& Segment3::p1() const
-{
-	return _p1;
-}
-
-const Point3& Segment3::p2() const
-{
-	return _p2;
-}
-
-void Segment3::set_p1(const Point3& p)
-{
-	_p1 = p;
-}
-
-void Segment3::set_p2(const Point3& p)
-{
-	_p2 = p;
-}
-
-double Segment3::norm() const
-{
-	return (_p1 - _p2).norm();
-}
-
-double Segment3::norm_square() const
-{
-	return (_p1 - _p2).norm_square();
-}
-
-bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
-{
-	// from https://paulbourke.net/geometry/pointlineplane/lineline.c
-	// and https://stackoverflow.com/questions/2316490/the-algorithm-to-find-the-point-of-intersection-of-two-3d-line-segment
-
-//	Calculate the line segment PaPb that is the shortest route between two lines P1P2 and P3P4.
-//		Pa = P1 + mua(P2 - P1) and	Pb = P3 + mub(P4 - P3)
-//		Return false if no solution exists.
-
-	const Point3 P1 = p1();
-	const Point3 P2 = p2();
-	const Point3 P3 = s.p1();
-	const Point3 P4 = s.p2();
-
-	double EPS = 1.e-10;
-
-	Point3 p13 = P1 - P3;
-	Point3 p43 = P4 - P3;
-
-	if (p43.norm_square() < EPS * EPS)
-		return false;
-
-	Point3 p21 = P2 - P1;
-
-	if (p21.norm_square() < EPS * EPS)
-		return false;
-
-	double d4321 = p43.dot_product(p21);
-	double d4343 = p43.dot_product(p43);
-	double d2121 = p21.dot_product(p21);
-
-	double denom = d2121 * d4343 - d4321 * d4321;
-	if (fabs(denom) < EPS)
-		return false;
-
-	double d1321 = p13.dot_product(p21);
-	double d1343 = p13.dot_product(p43);
-	double numerator = d1343 * d4321 - d1321 * d4343;
-	double mua = numerator / denom;
-
-	if ((mua < 0.) || (mua > 1.))
-		return false;
-
-	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
-
-	// can compute the nearest point on the other segment
-	// double mub = (d1343 + d4321 * mua) / d4343;
-	// pIntersectionb = P3 + p43 * mub;
-	//if ((mub < 0.) || (mub > 1.))
-	//	return false;
-
-	return true;
-}
-
-///////////////////////////////////////////////////////////////////////////
-Triangle3::Triangle3()
-{
-}
-
-Triangle3::Triangle3(const Point3& p1, const Point3& p2, const Point3& p3) :
-	_p1(p1), _p2(p2), _p3(p3)
-{
-}
-
-const Point3& Triangle3::p1() const
-{
-	return _p1;
-}
-
-const Point3& Triangle3::p2() const
-{
-	return _p2;
-}
-
-const Point3& Triangle3::p3() const
-{
-	return _p3;
-}
-
-void Triangle3::set_p1(const Point3& p)
-{
-	_p1 = p;
-}
-
-void Triangle3::set_p2(const Point3& p)
-{
-	_p2 = p;
-}
-
-void Triangle3::set_p3(const Point3& p)
-{
-	_p3 = p;
-}
-
-bool Triangle3::cutted_by(const Plane3& p) const
-{
-	int nbPositive = 0, nbNegative = 0;
-
-	double proj1 = p.distance_to(p1());
-	if (proj1 > 0.) nbPositive++;
-	if (proj1 < 0.) nbNegative++;
-
-	double proj2 = p.distance_to(p2());
-	if (proj2 > 0.) nbPositive++;
-	if (proj2 < 0.) nbNegative++;
-
-	double proj3 = p.distance_to(p3());
-	if (proj3 > 0.) nbPositive++;
-	if (proj3 < 0.) nbNegative++;
-
-	return ((nbPositive > 0) && (nbNegative > 0));
-}
-
-bool Triangle3::contains(const Point3& p) const
-{
-	// from https://gdbooks.gitbooks.io/3dcollisions/content/Chapter4/point_in_triangle.html
-
-	Point3 a = _p1 - p;
-	Point3 b = _p2 - p;
-	Point3 c = _p3 - p;
-
-	Point3 u = b.cross_product(c);
-
-	Point3 v = c.cross_product(a);
-	if (u.dot_product(v) < 0.)
-		return false;
-
-	Point3 w = a.cross_product(b);
-	if (u.dot_product(w) < 0.)
-		return false;
-
-	return true;
-}
-
-bool Triangle3::intersect_with(const Segment3& s, Point3& pIntersection) const
-{
-	Plane3 p(*this);
-
-	if (p.intersect_with(s, pIntersection) == false)
-		return false;
-
-	return contains(pIntersection);
-}
-
-bool Triangle3::intersect_with(const Triangle3& t) const
-{
-	// first tests from https://web.stanford.edu/class/cs277/resources/papers/Moller1997b.pdf
-
-	BoundingBox3 bA(*this);
-	BoundingBox3 bB(t);
-	Point3 pInter;
-
-	if (bA.intersect_with(bB) == false)
-		return false;
-
-	Plane3 planeB(t);
-	if (cutted_by(planeB) == false)
-		return false;
-
-	Plane3 planeA(*this);
-	if (t.cutted_by(planeA) == false)
-		return false;
-
-	//compute if any segment cut any triangles, slow but easy
-	if (intersect_with(Segment3(t.p1(), t.p2()), pInter))
-		return true;
-
-	if (intersect_with(Segment3(t.p1(), t.p3()), pInter))
-		return true;
-
-	if (intersect_with(Segment3(t.p2(), t.p3()), pInter))
-		return true;
-
-	if (t.intersect_with(Segment3(p1(), p2()), pInter))
-		return true;
-
-	if (t.intersect_with(Segment3(p1(), p3()), pInter))
-		return true;
-
-	if (t.intersect_with(Segment3(p2(), p3()), pInter))
-		return true;
-
-	return false;
-}
-
-double Triangle3::surface() const
-{
-	return orthogonal().norm() * 0.5;
-}
-
-Point3 Triangle3::normal() const
-{
-	return orthogonal().normalized();
-}
-
-Point3 Triangle3::orthogonal() const
-{
-	return (_p1 - _p2).cross_product(_p1 - _p3);
-}
-
-///////////////////////////////////////////////////////////////////////////
-Plane3::Plane3()
-{
-	_a = 0.; _b = 0.; _c = 0.; _d = 0.;
-}
-
-Plane3::Plane3(const Point3& p1, const Point3& p2, const Point3& p3)
-{
-	compute_using(p1, p2, p3);
-}
-
-Plane3::Plane3(const Triangle3& t)
-{
-	compute_using(t.p1(), t.p2(), t.p3());
-}
-
-void Plane3::compute_using(const Point3& p1, const Point3& p2, const Point3& p3)
-{
-	//compute normal using the cross product, and normalize (can be removed ?)
-	Point3 pn = ((p1 - p2).cross_product(p1 - p3)).normalized();
-
-	_a = pn._x; _b = pn._y; _c = pn._z;
-
-	//compute _d (the plane must pass at p1)
-	_d = -(_a * p1._x + _b * p1._y + _c * p1._z);
-}
-
-void Plane3::compute_using(const Triangle3& t)
-{
-	compute_using(t.p1(), t.p2(), t.p3());
-}
-
-double Plane3::distance_to(const Point3& p) const
-{
-	return _a * p._x + _b * p._y + _c * p._z + _d;
-}
-
-void Plane3::get(double& a, double& b, double& c, double& d) const
-{
-	a = _a; b = _b; c = _c; d = _d;
-}
-
-bool Plane3::intersect_with(const Segment3& s, Point3& pIntersection) const
-{
-	Point3 p1 = s.p1();
-	Point3 p2 = s.p2();
-
-	double k = _a * p1._x + _b * p1._y + _c * p1._z + _d;
-	double u = _a * (p2._x - p1._x) + _b * (p2._y - p1._y) + _c * (p2._z - p1._z);
-
-	if (u == 0.)
-		return false; // no intersection, parallel
-
-	double t = -k / u;
-	if ((t <= 0.) || (t >= 1.)) //must be in the segment (not a line)
-		return false;
-
-	pIntersection._x = p1._x + t * (p2._x - p1._x);
-	pIntersection._y = p1._y + t * (p2._y - p1._y);
-	pIntersection._z = p1._z + t * (p2._z - p1._z);
-
-	return true;
-}
-
-bool Plane3::intersect_with(const Plane3& p, Line3& pIntersection) const
-{
-	double espilon = 1.e-8;
-
-	// compute the line direction
-	Point3 direction = normal().cross_product(p.normal());
-	if (direction.norm_square() < espilon * espilon)
-		return false;
-
-	//compute one intersection point
-
-	//Plane3 p4(Point3(), this->normal() * this->_d, p.normal() * p._d);
-
-
-	//todo
-
-	return true;
-}
-
-void Plane3::project_point(const Point3& p, Point3& projected) const
-{
-	// from: https://stackoverflow.com/questions/9605556/how-to-project-a-point-onto-a-plane-in-3d
-
-	projected = p - (normal() * (normal().dot_product(p) + _d));
-}
-
-Point3 Plane3::normal() const // normalized
-{
-	return Point3(_a, _b, _c);
-}
-///////////////////////////////////////////////////////////////////////////
-BoundingBox3::BoundingBox3()
-{
-	_bInitialized = false;
-	_x1 = 0.; _y1 = 0.; _z1 = 0.;
-	_x2 = 0.; _y2 = 0.; _z2 = 0.;
-}
-
-BoundingBox3::BoundingBox3(const Triangle3& t)
-{
-	_bInitialized = false;
-	add(t.p1());
-	add(t.p2());
-	add(t.p3());
-}
-
-void BoundingBox3::add(const Point3& p1)
-{
-	double x = p1._x;
-	double y = p1._y;
-	double z = p1._z;
-
-	if (_bInitialized == false)
-	{
-		_x1 = x; _y1 = y; _z1 = z;
-		_x2 = x; _y2 = y; _z2 = z;
-		_bInitialized = true;
-		return;
-	}
-
-	if (x < _x1)
-		_x1 = x;
-	else if (x > _x2)
-		_x2 = x;
-
-	if (y < _y1)
-		_y1 = y;
-	else if (y > _y2)
-		_y2 = y;
-
-	if (z < _z1)
-		_z1 = z;
-	else if (z > _z2)
-		_z2 = z;
-}
-
-bool BoundingBox3::intersect_with(const BoundingBox3& b) const
-{
-	if (_x2 < b._x1)
-		return false;
-
-	if (_y2 < b._y1)
-		return false;
-
-	if (_z2 < b._z1)
-		return false;
-
-	if (b._x2 < _x1)
-		return false;
-
-	if (b._y2 < _y1)
-		return false;
-
-	if (b._z2 < _z1)
-		return false;
-
-	return true;
-}
-///////////////////////////////////////////////////////////////////////////
-
+#include "Geometry.h"
+
+#include <cmath>
+
+inline double squared(double a) //todo factorize ?
+{
+	return a * a;
+}
+
+///////////////////////////////////////////////////////////////////////////
+Point3::Point3()
+{
+	_x = 0.; _y = 0.; _z = 0.;
+}
+
+Point3::Point3(double x, double y, double z)
+{
+	_x = x; _y = y; _z = z;
+}
+
+
+double& Point3::x()
+{
+	return _x;
+}
+
+double& Point3::y()
+{
+	return _y;
+}
+
+double& Point3::z()
+{
+	return _z;
+}
+
+const double& Point3::x() const
+{
+	return _x;
+}
+
+const double& Point3::y() const
+{
+	return _y;
+}
+
+const double& Point3::z() const
+{
+	return _z;
+}
+
+
+Point3& Point3::operator+=(const Point3& p)
+{
+	_x += p._x;
+	_y += p._y;
+	_z += p._z;
+
+	return *this;
+}
+
+Point3& Point3::operator-=(const Point3& p)
+{
+	_x -= p._x;
+	_y -= p._y;
+	_z -= p._z;
+
+	return *this;
+}
+
+Point3& Point3::operator*=(double d)
+{
+	_x *= d;
+	_y *= d;
+	_z *= d;
+
+	return *this;
+}
+
+Point3& Point3::operator/=(double d)
+{
+	_x /= d;
+	_y /= d;
+	_z /= d;
+
+	return *this;
+}
+
+
+Point3 Point3::operator+(const Point3& p) const
+{
+	Point3 res;
+
+	res._x = _x + p._x;
+	res._y = _y + p._y;
+	res._z = _z + p._z;
+
+	return res;
+}
+
+Point3 Point3::operator*(double d) const
+{
+	Point3 res;
+
+	res._x = d * _x;
+	res._y = d * _y;
+	res._z = d * _z;
+
+	return res;
+}
+
+Point3 Point3::operator/(double d) const
+{
+	Point3 res;
+
+	res._x = _x / d;
+	res._y = _y / d;
+	res._z = _z / d;
+
+	return res;
+}
+
+Point3 Point3::operator-(const Point3& p) const
+{
+	Point3 res;
+
+	res._x = _x - p._x;
+	res._y = _y - p._y;
+	res._z = _z - p._z;
+
+	return res;
+}
+
+double Point3::distance_square(const Point3& p) const
+{
+	return squared(_x - p._x) + squared(_y - p._y) + squared(_z - p._z);
+}
+
+double Point3::dot_product(const Point3& p) const
+{
+	return _x * p._x + _y * p._y + _z * p._z;
+}
+
+Point3 Point3::cross_product(const Point3& p) const
+{
+	// from https://en.wikipedia.org/wiki/Cross_product
+	return Point3(_y * p._z - _z * p._y, _z * p._x - _x * p._z, _x * p._y - _y * p._x);
+}
+
+double Point3::norm() const
+{
+	return sqrt(_x * _x + _y * _y + _z * _z);
+}
+
+double Point3::norm_square() const
+{
+	return _x * _x + _y * _y + _z * _z;
+}
+
+Point3 Point3::normalized() const
+{
+	double d = 1. / norm();
+	return this->operator*(d);
+}
+void Point3::normalize()
+{
+	double d = 1. / norm();
+	this->operator*=(d);
+}
+///////////////////////////////////////////////////////////////////////////
+Line3::Line3()
+{
+}
+
+Line3::Line3(const Point3& p1, const Point3& p2) :
+	_p1(p1),
+	_p2(p2)
+{
+}
+
+const Point3& Line3::p1() const
+{
+	return _p1;
+}
+
+const Point3& Line3::p2() const
+{
+	return _p2;
+}
+
+void Line3::set_p1(const Point3& p)
+{
+	_p1 = p;
+}
+
+void Line3::set_p2(const Point3& p)
+{
+	_p2 = p;
+}
+///////////////////////////////////////////////////////////////////////////
+Segment3::Segment3()
+{
+}
+
+Segment3::Segment3(const Point3& p1, const Point3& p2) :
+	_p1(p1),
+	_p2(p2)
+{
+}
+
+const Point3& Segment3::p1() const
+{
+	return _p1;
+}
+
+const Point3& Segment3::p2() const
+{
+	return _p2;
+}
+
+void Segment3::set_p1(const Point3& p)
+{
+	_p1 = p;
+}
+
+void Segment3::set_p2(const Point3& p)
+{
+	_p2 = p;
+}
+
+double Segment3::norm() const
+{
+	return (_p1 - _p2).norm();
+}
+
+double Segment3::norm_square() const
+{
+	return (_p1 - _p2).norm_square();
+}
+
+bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
+{
+	// from https://paulbourke.net/geometry/pointlineplane/lineline.c
+	// and https://stackoverflow.com/questions/2316490/the-algorithm-to-find-the-point-of-intersection-of-two-3d-line-segment
+
+//	Calculate the line segment PaPb that is the shortest route between two lines P1P2 and P3P4.
+//		Pa = P1 + mua(P2 - P1) and	Pb = P3 + mub(P4 - P3)
+//		Return false if no solution exists.
+
+	const Point3 P1 = p1();
+	const Point3 P2 = p2();
+	const Point3 P3 = s.p1();
+	const Point3 P4 = s.p2();
+
+	double EPS = 1.e-10;
+
+	Point3 p13 = P1 - P3;
+	Point3 p43 = P4 - P3;
+
+	if (p43.norm_square() < EPS * EPS)
+		return false;
+
+	Point3 p21 = P2 - P1;
+
+	if (p21.norm_square() < EPS * EPS)
+		return false;
+
+	double d4321 = p43.dot_product(p21);
+	double d4343 = p43.dot_product(p43);
+	double d2121 = p21.dot_product(p21);
+
+	double denom = d2121 * d4343 - d4321 * d4321;
+	if (fabs(denom) < EPS)
+		return false;
+
+	double d1321 = p13.dot_product(p21);
+	double d1343 = p13.dot_product(p43);
+	double numerator = d1343 * d4321 - d1321 * d4343;
+	double mua = numerator / denom;
+
+	if ((mua < 0.) || (mua > 1.))
+		return false;
+
+	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
+
+	// can compute the nearest point on the other segment
+	// double mub = (d1343 + d4321 * mua) / d4343;
+	// pIntersectionb = P3 + p43 * mub;
+	//if ((mub < 0.) || (mub > 1.))
+	//	return false;
+
+	return true;
+}
+
+///////////////////////////////////////////////////////////////////////////
+Triangle3::Triangle3()
+{
+}
+
+Triangle3::Triangle3(const Point3& p1, const Point3& p2, const Point3& p3) :
+	_p1(p1), _p2(p2), _p3(p3)
+{
+}
+
+const Point3& Triangle3::p1() const
+{
+	return _p1;
+}
+
+const Point3& Triangle3::p2() const
+{
+	return _p2;
+}
+
+const Point3& Triangle3::p3() const
+{
+	return _p3;
+}
+
+void Triangle3::set_p1(const Point3& p)
+{
+	_p1 = p;
+}
+
+void Triangle3::set_p2(const Point3& p)
+{
+	_p2 = p;
+}
+
+void Triangle3::set_p3(const Point3& p)
+{
+	_p3 = p;
+}
+
+bool Triangle3::cutted_by(const Plane3& p) const
+{
+	int nbPositive = 0, nbNegative = 0;
+
+	double proj1 = p.distance_to(p1());
+	if (proj1 > 0.) nbPositive++;
+	if (proj1 < 0.) nbNegative++;
+
+	double proj2 = p.distance_to(p2());
+	if (proj2 > 0.) nbPositive++;
+	if (proj2 < 0.) nbNegative++;
+
+	double proj3 = p.distance_to(p3());
+	if (proj3 > 0.) nbPositive++;
+	if (proj3 < 0.) nbNegative++;
+
+	return ((nbPositive > 0) && (nbNegative > 0));
+}
+
+bool Triangle3::contains(const Point3& p) const
+{
+	// from https://gdbooks.gitbooks.io/3dcollisions/content/Chapter4/point_in_triangle.html
+
+	Point3 a = _p1 - p;
+	Point3 b = _p2 - p;
+	Point3 c = _p3 - p;
+
+	Point3 u = b.cross_product(c);
+
+	Point3 v = c.cross_product(a);
+	if (u.dot_product(v) < 0.)
+		return false;
+
+	Point3 w = a.cross_product(b);
+	if (u.dot_product(w) < 0.)
+		return false;
+
+	// needed when p is on the line (p2,p3): u is null
+	if (v.dot_product(w) < 0.)
+		return false;
+
+	return true;
+}
+
+bool Triangle3::intersect_with(const Segment3& s, Point3& pIntersection) const
+{
+	Plane3 p(*this);
+
+	if (p.intersect_with(s, pIntersection) == false)
+		return false;
+
+	return contains(pIntersection);
+}
+
+bool Triangle3::intersect_with(const Triangle3& t) const
+{
+	// first tests from https://web.stanford.edu/class/cs277/resources/papers/Moller1997b.pdf
+
+	BoundingBox3 bA(*this);
+	BoundingBox3 bB(t);
+	Point3 pInter;
+
+	if (bA.intersect_with(bB) == false)
+		return false;
+
+	Plane3 planeB(t);
+	if (cutted_by(planeB) == false)
+		return false;
+
+	Plane3 planeA(*this);
+	if (t.cutted_by(planeA) == false)
+		return false;
+
+	//compute if any segment cut any triangles, slow but easy
+	if (intersect_with(Segment3(t.p1(), t.p2()), pInter))
+		return true;
+
+	if (intersect_with(Segment3(t.p1(), t.p3()), pInter))
+		return true;
+
+	if (intersect_with(Segment3(t.p2(), t.p3()), pInter))
+		return true;
+
+	if (t.intersect_with(Segment3(p1(), p2()), pInter))
+		return true;
+
+	if (t.intersect_with(Segment3(p1(), p3()), pInter))
+		return true;
+
+	if (t.intersect_with(Segment3(p2(), p3()), pInter))
+		return true;
+
+	return false;
+}
+
+double Triangle3::surface() const
+{
+	return orthogonal().norm() * 0.5;
+}
+
+Point3 Triangle3::normal() const
+{
+	return orthogonal().normalized();
+}
+
+Point3 Triangle3::orthogonal() const
+{
+	return (_p1 - _p2).cross_product(_p1 - _p3);
+}
+
+///////////////////////////////////////////////////////////////////////////
+Plane3::Plane3()
+{
+	_a = 0.; _b = 0.; _c = 0.; _d = 0.;
+}
+
+Plane3::Plane3(const Point3& p1, const Point3& p2, const Point3& p3)
+{
+	compute_using(p1, p2, p3);
+}
+
+Plane3::Plane3(const Triangle3& t)
+{
+	compute_using(t.p1(), t.p2(), t.p3());
+}
+
+void Plane3::compute_using(const Point3& p1, const Point3& p2, const Point3& p3)
+{
+	//compute normal using the cross product, and normalize (can be removed ?)
+	Point3 pn = ((p1 - p2).cross_product(p1 - p3)).normalized();
+
+	_a = pn._x; _b = pn._y; _c = pn._z;
+
+	//compute _d (the plane must pass at p1)
+	_d = -(_a * p1._x + _b * p1._y + _c * p1._z);
+}
+
+void Plane3::compute_using(const Triangle3& t)
+{
+	compute_using(t.p1(), t.p2(), t.p3());
+}
+
+double Plane3::distance_to(const Point3& p) const
+{
+	return _a * p._x + _b * p._y + _c * p._z + _d;
+}
+
+void Plane3::get(double& a, double& b, double& c, double& d) const
+{
+	a = _a; b = _b; c = _c; d = _d;
+}
+
+bool Plane3::intersect_with(const Segment3& s, Point3& pIntersection) const
+{
+	Point3 p1 = s.p1();
+	Point3 p2 = s.p2();
+
+	double k = _a * p1._x + _b * p1._y + _c * p1._z + _d;
+	double u = _a * (p2._x - p1._x) + _b * (p2._y - p1._y) + _c * (p2._z - p1._z);
+
+	if (u == 0.)
+		return false; // no intersection, parallel
+
+	double t = -k / u;
+	if ((t <= 0.) || (t >= 1.)) //must be in the segment (not a line)
+		return false;
+
+	pIntersection._x = p1._x + t * (p2._x - p1._x);
+	pIntersection._y = p1._y + t * (p2._y - p1._y);
+	pIntersection._z = p1._z + t * (p2._z - p1._z);
+
+	return true;
+}
+
+bool Plane3::intersect_with(const Plane3& p, Line3& pIntersection) const
+{
+	double espilon = 1.e-8;
+
+	// compute the line direction
+	Point3 direction = normal().cross_product(p.normal());
+	if (direction.norm_square() < espilon * espilon)
+		return false;
+
+	//compute one intersection point
+
+	//Plane3 p4(Point3(), this->normal() * this->_d, p.normal() * p._d);
+
+
+	//todo
+
+	return true;
+}
+
+void Plane3::project_point(const Point3& p, Point3& projected) const
+{
+	// from: https://stackoverflow.com/questions/9605556/how-to-project-a-point-onto-a-plane-in-3d
+
+	projected = p - (normal() * (normal().dot_product(p) + _d));
+}
+
+Point3 Plane3::normal() const // normalized
+{
+	return Point3(_a, _b, _c);
+}
+///////////////////////////////////////////////////////////////////////////
+BoundingBox3::BoundingBox3()
+{
+	_bInitialized = false;
+	_x1 = 0.; _y1 = 0.; _z1 = 0.;
+	_x2 = 0.; _y2 = 0.; _z2 = 0.;
+}
+
+BoundingBox3::BoundingBox3(const Triangle3& t)
+{
+	_bInitialized = false;
+	add(t.p1());
+	add(t.p2());
+	add(t.p3());
+}
+
+void BoundingBox3::add(const Point3& p1)
+{
+	double x = p1._x;
+	double y = p1._y;
+	double z = p1._z;
+
+	if (_bInitialized == false)
+	{
+		_x1 = x; _y1 = y; _z1 = z;
+		_x2 = x; _y2 = y; _z2 = z;
+		_bInitialized = true;
+		return;
+	}
+
+	if (x < _x1)
+		_x1 = x;
+	else if (x > _x2)
+		_x2 = x;
+
+	if (y < _y1)
+		_y1 = y;
+	else if (y > _y2)
+		_y2 = y;
+
+	if (z < _z1)
+		_z1 = z;
+	else if (z > _z2)
+		_z2 = z;
+}
+
+bool BoundingBox3::intersect_with(const BoundingBox3& b) const
+{
+	if (_x2 < b._x1)
+		return false;
+
+	if (_y2 < b._y1)
+		return false;
+
+	if (_z2 < b._z1)
+		return false;
+
+	if (b._x2 < _x1)
+		return false;
+
+	if (b._y2 < _y1)
+		return false;
+
+	if (b._z2 < _z1)
+		return false;
+
+	return true;
+}
+///////////////////////////////////////////////////////////////////////////
+
-- 
2.43.0


From 1cc89263756e61cf05bc6571221af68522d115d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:38 +0000
Subject: [PATCH 02/26] fix: Mesh::split_edge_with_vertex lost a vertex when
 rotating and broke the orientation of the second triangle

---
 src/Mesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 8d8ebee..3342242 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -9,7 +9,7 @@
 #include "Transform.h"
 
 #define swap(a,b) { auto tmp=a; a=b; b=tmp; }  
-#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=a; }  
+#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=tmp; }  
 
 ///////////////////////////////////////////////////////////////////////////
 Mesh::Mesh()
@@ -274,14 +274,14 @@ void Mesh::split_edge_with_vertex(int iTriangle1, int iTriangle2, int iVertex1,
 
 	//split triangle2
 	_pKernel->get_triangle_vertices(iTriangle2, iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	assert(iV2 == iVertex2);
+	assert(iV1 == iVertex2);
 
-	_pKernel->add_triangle(iV2, iVertexSplit, iV3);
-	_pKernel->add_triangle(iVertexSplit, iV1, iV3);
+	_pKernel->add_triangle(iV1, iVertexSplit, iV3);
+	_pKernel->add_triangle(iVertexSplit, iV2, iV3);
 	_pKernel->unlink_triangle(iTriangle2);
 }
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 29e93483635559b42af34de0ff26a22503dacdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:11 +0000
Subject: [PATCH 03/26] fix: Mesh self assignment lost the mesh, assignment
 leaked the storage and appending a mesh to itself never ended

---
 src/Mesh.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 3342242..e64b447 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -22,6 +22,7 @@ Mesh::Mesh()
 
 Mesh::Mesh(const Mesh& m)
 {
+	_pKernel = new MeshKernelLinkedTriangles;
 	this->operator=(m);
 }
 
@@ -109,7 +110,9 @@ void Mesh::unlink_triangle(int iTriangle)
 
 Mesh& Mesh::operator=(const Mesh& m)
 {
-	_pKernel = new MeshKernelLinkedTriangles;
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	set_color(m.get_color());
@@ -124,7 +127,9 @@ void Mesh::add_mesh(const Mesh& f)
 	_iColor = f.get_color();
 
 	int iNbVertices = nb_vertices();
-	for (int i = 0; i < f.nb_vertices(); i++)
+	int iNbVerticesToAdd = f.nb_vertices(); //f may be *this
+	int iNbTrianglesToAdd = f.nb_triangles();
+	for (int i = 0; i < iNbVerticesToAdd; i++)
 	{
 		Point3 v;
 		f.get_vertex(i, v);
@@ -132,7 +137,7 @@ void Mesh::add_mesh(const Mesh& f)
 	}
 
 	int iVertex1, iVertex2, iVertex3;
-	for (int i = 0; i < f.nb_triangles(); i++)
+	for (int i = 0; i < iNbTrianglesToAdd; i++)
 	{
 		if (f.is_triangle_unlinked(i))
 			continue;
-- 
2.43.0


From 9ef2a3b39fb592b1f313f3e749ea9508c2be89f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:11 +0000
Subject: [PATCH 04/26] fix: SmoothMesh self assignment lost the patches and
 appending a smooth mesh to itself never ended

---
 src/SmoothMesh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SmoothMesh.cpp b/src/SmoothMesh.cpp
index 6ba3c29..9bfefa4 100644
--- a/src/SmoothMesh.cpp
+++ b/src/SmoothMesh.cpp
@@ -44,6 +44,9 @@ int SmoothMesh::nb_triangles() const
 
 SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 {
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	return *this;
@@ -51,7 +54,8 @@ SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 
 void SmoothMesh::add_mesh(const SmoothMesh& vst)
 {
-	for (int i = 0; i < vst.nb_triangles(); i++)
+	int iNbTrianglesToAdd = vst.nb_triangles(); //vst may be *this
+	for (int i = 0; i < iNbTrianglesToAdd; i++)
 	{
 		_vst.push_back(vst.triangle(i));
 	}
-- 
2.43.0


From 7dbc2d3d435d5745786b322c2023ba169b31b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:11 +0000
Subject: [PATCH 05/26] fix: Face and Solid assignment did nothing and copying
 a Solid dropped its faces

---
 src/Face.cpp  | 4 +++-
 src/Solid.cpp | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Face.cpp b/src/Face.cpp
index 004d796..5aa3334 100644
--- a/src/Face.cpp
+++ b/src/Face.cpp
@@ -25,7 +25,9 @@ Face::~Face()
 
 Face& Face::operator=(const Face& other)
 {
-	return *new Face(*this);
+	_mesh = other._mesh;
+	_iColor = other._iColor;
+	return *this;
 }
 
 void Face::set_color(int iColor)
diff --git a/src/Solid.cpp b/src/Solid.cpp
index f5d8815..6d935ec 100644
--- a/src/Solid.cpp
+++ b/src/Solid.cpp
@@ -7,7 +7,8 @@ Solid::Solid()
 }
 
 Solid::Solid(const Solid& f) :
-	_mesh(f._mesh)
+	_mesh(f._mesh),
+	_faces(f._faces)
 {
 }
 
@@ -22,7 +23,9 @@ Solid::~Solid()
 
 Solid& Solid::operator=(const Solid& other)
 {
-	return *new Solid(*this);
+	_mesh = other._mesh;
+	_faces = other._faces;
+	return *this;
 }
 
 
-- 
2.43.0


From 872c6bbe5be241a8429c15baa43f8e126fb5f966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:07 +0000
Subject: [PATCH 06/26] fix: cylinder caps no longer contain degenerate
 triangles

---
 src/MeshFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshFactory.cpp b/src/MeshFactory.cpp
index ae30697..09d206a 100644
--- a/src/MeshFactory.cpp
+++ b/src/MeshFactory.cpp
@@ -204,14 +204,14 @@ namespace MeshFactory
 		m.add_quad(2 * iNbSegmentLongitude - 2, 2 * iNbSegmentLongitude - 1, 1, 0);
 
 		// associates triangles, up face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2, 2 * i, 2 * i + 2);
 		}
 		m.add_triangle(iNbSegmentLongitude * 2, 2 * iNbSegmentLongitude - 2, 0);
 
 		// associates triangles, down face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2 + 1, 2 * i + 3, 2 * i + 1);
 		}
-- 
2.43.0


From 67e79cd7e6e22a9d33a0ce6f6035d2c30dd6c68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:29 +0000
Subject: [PATCH 07/26] fix: meshing a quadratic Bezier patch no longer leaves
 holes

---
 src/QuadBezierTriangle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/QuadBezierTriangle.cpp b/src/QuadBezierTriangle.cpp
index ba6d1c2..5559185 100644
--- a/src/QuadBezierTriangle.cpp
+++ b/src/QuadBezierTriangle.cpp
@@ -94,13 +94,14 @@ void QuadBezierTriangle::add_to_mesh(Mesh& m, int iNbSegments) const
 
 		// add 1st triangle
 		m.add_triangle(pos, pos + 1, pos + lineSize);
-		pos += lineSize;
 
-		for (int iu = 1; iu <= lineSize - 4; iu++)
+		for (int iu = 1; iu <= lineSize - 2; iu++)
 		{
 			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + lineSize - 1);
 			m.add_triangle(pos + iu, pos + iu + 1, pos + iu + lineSize);
 		}
+
+		pos += lineSize;
 	}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 66f2ce84c8a2d5ed92f09a0aa7392cac3940aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:56 +0000
Subject: [PATCH 08/26] fix: degree elevation of a curve of degree 0 lost its
 control points

---
 src/NurbsCurve.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index c8699f4..a401e60 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -306,7 +306,18 @@ bool NurbsCurve::degree_elevation()
 	vector<Point3> newPoints;// (2 * _iNbPoints - 1);
 	vector<double> newWeights;// (2 * _iNbPoints - 1);
 
-	if (_degree == 1)
+	if (_degree == 0)
+	{
+		for (int i = 0; i < _iNbPoints; i++)
+		{
+			// piecewise constant: each point is both ends of its span
+			newPoints.push_back(_points[i] * _weights[i]);
+			newPoints.push_back(_points[i] * _weights[i]);
+			newWeights.push_back(_weights[i]);
+			newWeights.push_back(_weights[i]);
+		}
+	}
+	else if (_degree == 1)
 	{
 		for (int i = 0; i <= _iNbPoints - 2; i++)
 		{
-- 
2.43.0


From e67c461a91b6de920c15f374a479b4e5fbc2d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:35 +0000
Subject: [PATCH 09/26] fix: equal weights of a surface kept the former weights

---
 src/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 91c78cf..b3bc4bf 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -130,7 +130,7 @@ void NurbsSurface::set_weights(const vector <double>& weights)
 
 void NurbsSurface::set_equals_weights() //non rational
 {
-	_weights.resize(_points.size(), 1.);
+	_weights.assign(_points.size(), 1.);
 }
 
 const vector<double>& NurbsSurface::weights() const
-- 
2.43.0


From 40f939bf43f6fe8c045d9281e7a07eba3f12d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 10/26] fix: clearing a surface kept its closed flags

---
 src/NurbsSurface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index b3bc4bf..d789eae 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -28,6 +28,8 @@ void NurbsSurface::clear()
 	_points.clear();
 	_iNbPointsU = 0;
 	_iNbPointsV = 0;
+	_bClosedU = false;
+	_bClosedV = false;
 }
 
 void NurbsSurface::set_degree(int degreeU, int degreeV)
-- 
2.43.0


From 9a6d36f243a9b8d8795c86f57ec19a939423e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 11/26] fix: NURBS surface from a height map swapped the grid
 sizes of rectangular maps

---
 src/NurbsUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 41770bd..8c1da2b 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -32,7 +32,7 @@ void NurbsUtil::create_from_z(const vector<double>& z, int iSizeX, int iSizeY, i
 		}
 
 	n.set_degree(iDegree, iDegree);
-	n.set_points(points, iSizeX, iSizeY);
+	n.set_points(points, iSizeY, iSizeX); // y varies first: u is along y, v along x
 	n.set_uniform_u();
 	n.set_uniform_v();
 	n.set_equals_weights();
-- 
2.43.0


From 1ca51ac041eb07cd3b9b581dab19dabe1f796982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 12/26] fix: NURBS solid from a mesh brought removed triangles
 back

---
 src/NurbsUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 8c1da2b..5826d2f 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -43,6 +43,9 @@ void NurbsUtil::create_from_mesh(const Mesh& m, NurbsSolid& n)
 	n.clear();
 	for (int i = 0; i < m.nb_triangles(); i++)
 	{
+		if (m.is_triangle_unlinked(i))
+			continue;
+
 		Triangle3 t;
 		m.get_triangle(i, t);
 
-- 
2.43.0


From 038d3101089274e51a35edd8ece40e6a2d587e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:28 +0000
Subject: [PATCH 13/26] fix: Image::to_double of a non-square image wrote
 outside the array and overlapped columns

---
 src/Image.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image.h b/src/Image.h
index 74dbe0d..46c060c 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -108,7 +108,7 @@ public:
         img.resize(size());
         for (size_t ligne = 0; ligne < (size_t)width(); ligne++)
             for (size_t colonne = 0; colonne < (size_t)height(); colonne++)
-                img[colonne + ligne * width()] = (*this)((int)ligne, (int)colonne);
+                img[colonne + ligne * height()] = (*this)((int)ligne, (int)colonne);
     }
 
 private:
-- 
2.43.0


From 5d04649f59be6b8c5a8cdaa1f1593245f5422d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 14/26] fix: ImageIoBmp::read used a wrong row padding for 8
 and 24 bit files

---
 src/ImageIoBmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 39a9336..a70787f 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -74,7 +74,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	if (sBPP == 24)
 	{
 		int iLineWidthPerfect = iWidth * iNbByte;
-		int iLineWidth = (iLineWidthPerfect + 3) % 4;
+		int iLineWidth = (iLineWidthPerfect + 3) / 4 * 4;
 		int iPack = iLineWidth - iLineWidthPerfect;
 
 		// read data buffer
@@ -99,7 +99,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 
 	if (sBPP == 8)
 	{   //assume grey level, no color LUT for now
-		int iLineWidth = iWidth + (iWidth % 4);
+		int iLineWidth = (iWidth + 3) / 4 * 4;
 		int iPack = iLineWidth - iWidth;
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
-- 
2.43.0


From f08ee11fa543980b0d34bc593d2f100cc46dc562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:34 +0000
Subject: [PATCH 15/26] fix: STLFile::load added triangles that are not in the
 file when it is truncated

---
 src/STLFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 52f41e0..acc6927 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -102,6 +102,9 @@ namespace STLFile
 			//ignore color
 			f.read((char*)(&tmp), 2);
 
+			if (!f)
+				return false; // file is truncated
+
 			to_mesh.add_vertex(p1x, p1y, p1z);
 			to_mesh.add_vertex(p2x, p2y, p2z);
 			to_mesh.add_vertex(p3x, p3y, p3z);
-- 
2.43.0


From 92016fd2d741e50a0d47a602199f80bdcd3412d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 16/26] fix: OBJWriter::write(polyline) referred to vertices
 from 0 and did not end its line

---
 src/OBJFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index eb0d2a1..390afcf 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -141,8 +141,9 @@ void OBJWriter::write(const vector<Point3>& polyline)
 	_f << "l ";
 	for (int i = 0; i < polyline.size(); i++)
 	{
-		_f << i + _verticesCount << " ";
+		_f << i + 1 + _verticesCount << " ";
 	}
+	_f << endl;
 
 	_verticesCount += polyline.size();
 }
\ No newline at end of file
-- 
2.43.0


From f565b852a582482a3036d35b94b35cdca2a23055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 17/26] fix: OBJWriter wrote the upper byte of the colour as
 part of red

---
 src/OBJFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 390afcf..f28dd43 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -94,7 +94,7 @@ void OBJWriter::write(const Mesh& to_mesh)
 	bool bHasColor = to_mesh.get_color() != -1;
 	if (bHasColor)
 	{
-		colorR = (to_mesh.get_color() >> 16) / 255.;
+		colorR = ((to_mesh.get_color() & 0xFF0000) >> 16) / 255.;
 		colorG = ((to_mesh.get_color() & 0xFF00) >> 8) / 255.;
 		colorB = (to_mesh.get_color() & 0xFF) / 255.;
 	}
-- 
2.43.0


From 6e07bd195dfc57175e4f87ca358e83da64244020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 18/26] fix: OBJWriter reused for a second file kept counting
 the vertices of the first

---
 src/OBJFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index f28dd43..ceb820d 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -75,6 +75,7 @@ OBJWriter::~OBJWriter()
 
 void OBJWriter::open(const string& filename)
 {
+	_verticesCount = 0;
 	_f.open(filename);
 }
 
-- 
2.43.0


From 617bd7d38759f47e1e84c6ba66b6bcbd4a03a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 19/26] fix: depth of scan lines clipped at the left border of
 the frame

---
 src/Renderer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 45fba8a..db2aaf8 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -277,8 +277,8 @@ void Renderer::draw_horizontal_line(int ax, double aw, int bx, double bw, int y,
 		assert(t >= 0.);
 		assert(t <= 1.);
 
-		ax = 0; // bx* t + (1. - t) * ax;
-		aw = bw * t + (1. - t)*aw;
+		ax = 0; // ax* t + (1. - t) * bx;
+		aw = aw * t + (1. - t)*bw;
 	}
 	if (bx >= _Xmax)
 	{
-- 
2.43.0


From 73205b4dd3a2e2f3d423c87ffd97a88ffd3dfe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 20/26] fix: the last row of the frame was never painted by
 faces clipped at the bottom

---
 src/Renderer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index db2aaf8..79c384e 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -221,11 +221,11 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 	}
 	if (cy >= _Ymax )
 	{
-		double t = (double)(cy - (_Ymax-1)) / (cy - ay);
+		double t = (double)(cy - _Ymax) / (cy - ay);
 		assert(t >= 0.);
 		assert(t <= 1.);
  
-		cy = _Ymax-1;
+		cy = _Ymax;
 		cx = ax * t + (1. - t)*cx;
 		cw = aw * t + (1. - t)*cw;
 		dx = bx * t + (1. - t)*dx;
@@ -234,7 +234,7 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 
 	assert(ay >= 0);
 	assert(ay <= cy);
-	assert(cy < _Ymax);
+	assert(cy <= _Ymax);
 
 	//plot trapeze
 	assert(ay <= cy);
-- 
2.43.0


From 804ae607ab3d1d8998e3ac79c066bca4b11247c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 21/26] fix: the middle vertex of a triangle moved down a row
 above the frame

---
 src/Renderer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 79c384e..ac7fdc7 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -168,7 +168,6 @@ bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Poin
 	assert(t <= 1.);
 
 	int dx = (int)(cx * t + (1. - t)*ax+0.5);
-	int dy = (int)(cy * t + (1. - t)*ay+0.5);
 	double dw = cw * t + (1. - t)*aw;
 
 	//reorder in x such that bx<dx
@@ -176,7 +175,6 @@ bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Poin
 	{
 		//exchange D and B
 		int tmpx = bx; bx = dx; dx = tmpx;
-		int tmpy = by; by = dy; //dy = tmpy;
 		double tmpw = bw; bw = dw; dw = tmpw;
 	}
 
-- 
2.43.0


From c7b24f0e5d27b4bc03aea295ede286ff9ec7616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 22/26] fix: columns left of the frame were rounded towards it

---
 src/Renderer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index ac7fdc7..3f931f8 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -167,7 +167,7 @@ bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Poin
 	assert(t >= 0.);
 	assert(t <= 1.);
 
-	int dx = (int)(cx * t + (1. - t)*ax+0.5);
+	int dx = (int)floor(cx * t + (1. - t)*ax+0.5);
 	double dw = cw * t + (1. - t)*aw;
 
 	//reorder in x such that bx<dx
@@ -243,9 +243,9 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 		assert(t >= 0.);
 		assert(t <= 1.);
 
-		int p1x = (int)(cx * t + ax * (1. - t)+0.5);
+		int p1x = (int)floor(cx * t + ax * (1. - t)+0.5);
 		double p1w = (cw * t + aw * (1. - t));
-		int p2x = (int)(dx * t + bx * (1. - t)+0.5);
+		int p2x = (int)floor(dx * t + bx * (1. - t)+0.5);
 		double p2w = (dw * t + bw * (1. - t));
 
 		assert(p1x <= p2x);
-- 
2.43.0


From 533ee3fce920d8d94a0de8ef701755ce251952ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 23/26] fix: lights were deleted through a base class without
 virtual destructor

---
 src/RendererLight.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/RendererLight.h b/src/RendererLight.h
index dd8787f..00a492d 100644
--- a/src/RendererLight.h
+++ b/src/RendererLight.h
@@ -7,6 +7,7 @@ class RendererLight
 {
 public:
 	RendererLight();
+	virtual ~RendererLight() = default;
 
 	virtual void apply(double& dRed, double& dGreen, double& dBlue, const Point3& normal) = 0;
 };
-- 
2.43.0


From 9554142335bf56e0d1eeccaff7dcfde85231a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 24/26] fix: projected positions are rounded to nearest and
 stay in the range of int

---
 src/RendererCamera.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/RendererCamera.cpp b/src/RendererCamera.cpp
index e605354..67ed515 100644
--- a/src/RendererCamera.cpp
+++ b/src/RendererCamera.cpp
@@ -47,12 +47,26 @@ Point3 RendererCamera::local_ref(const Point3& pc) const
 	return pLocal;
 }
 ////////////////////////////////////////////////////////////////////////////////
+static int to_pixel(double d)
+{
+	// points near the camera plane project far away: keep a margin for integer operations
+	const int iLimit = 1 << 28;
+
+	d = floor(d + 0.5);
+	if (d >= iLimit)
+		return iLimit;
+	if (d > -iLimit)
+		return (int)d;
+
+	return -iLimit;
+}
+////////////////////////////////////////////////////////////////////////////////
 void RendererCamera::project(const Point3& pPixels, int& screenx, int& screeny, double& w)
 {
 	Point3 pc = local_ref(pPixels);
 
-	screenx = (int)(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
-	screeny = (int)(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
+	screenx = to_pixel(pc.x() * _zoomFactor / pc.z() + _screenCenterX);
+	screeny = to_pixel(pc.y() * _zoomFactor / pc.z() + _screenCenterY);
 	if (pc.z() != 0.)
 		w = 1. / pc.z();
 	else
-- 
2.43.0


From 10aad078c677aa335bca541089a9770abe1bf049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 25/26] fix: restore the line endings of Geometry.cpp, which
 508d363 had changed throughout

---
 src/Geometry.cpp | 1216 +++++++++++++++++++++++-----------------------
 1 file changed, 608 insertions(+), 608 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index 928a265..b5add32 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -1,608 +1,608 @@
-#include "Geometry.h"
-
-#include <cmath>
-
-inline double squared(double a) //todo factorize ?
-{
-	return a * a;
-}
-
-///////////////////////////////////////////////////////////////////////////
-Point3::Point3()
-{
-	_x = 0.; _y = 0.; _z = 0.;
-}
-
-Point3::Point3(double x, double y, double z)
-{
-	_x = x; _y = y; _z = z;
-}
-
-
-double& Point3::x()
-{
-	return _x;
-}
-
-double& Point3::y()
-{
-	return _y;
-}
-
-double& Point3::z()
-{
-	return _z;
-}
-
-const double& Point3::x() const
-{
-	return _x;
-}
-
-const double& Point3::y() const
-{
-	return _y;
-}
-
-const double& Point3::z() const
-{
-	return _z;
-}
-
-
-Point3& Point3::operator+=(const Point3& p)
-{
-	_x += p._x;
-	_y += p._y;
-	_z += p._z;
-
-	return *this;
-}
-
-Point3& Point3::operator-=(const Point3& p)
-{
-	_x -= p._x;
-	_y -= p._y;
-	_z -= p._z;
-
-	return *this;
-}
-
-Point3& Point3::operator*=(double d)
-{
-	_x *= d;
-	_y *= d;
-	_z *= d;
-
-	return *this;
-}
-
-Point3& Point3::operator/=(double d)
-{
-	_x /= d;
-	_y /= d;
-	_z /= d;
-
-	return *this;
-}
-
-
-Point3 Point3::operator+(const Point3& p) const
-{
-	Point3 res;
-
-	res._x = _x + p._x;
-	res._y = _y + p._y;
-	res._z = _z + p._z;
-
-	return res;
-}
-
-Point3 Point3::operator*(double d) const
-{
-	Point3 res;
-
-	res._x = d * _x;
-	res._y = d * _y;
-	res._z = d * _z;
-
-	return res;
-}
-
-Point3 Point3::operator/(double d) const
-{
-	Point3 res;
-
-	res._x = _x / d;
-	res._y = _y / d;
-	res._z = _z / d;
-
-	return res;
-}
-
-Point3 Point3::operator-(const Point3& p) const
-{
-	Point3 res;
-
-	res._x = _x - p._x;
-	res._y = _y - p._y;
-	res._z = _z - p._z;
-
-	return res;
-}
-
-double Point3::distance_square(const Point3& p) const
-{
-	return squared(_x - p._x) + squared(_y - p._y) + squared(_z - p._z);
-}
-
-double Point3::dot_product(const Point3& p) const
-{
-	return _x * p._x + _y * p._y + _z * p._z;
-}
-
-Point3 Point3::cross_product(const Point3& p) const
-{
-	// from https://en.wikipedia.org/wiki/Cross_product
-	return Point3(_y * p._z - _z * p._y, _z * p._x - _x * p._z, _x * p._y - _y * p._x);
-}
-
-double Point3::norm() const
-{
-	return sqrt(_x * _x + _y * _y + _z * _z);
-}
-
-double Point3::norm_square() const
-{
-	return _x * _x + _y * _y + _z * _z;
-}
-
-Point3 Point3::normalized() const
-{
-	double d = 1. / norm();
-	return this->operator*(d);
-}
-void Point3::normalize()
-{
-	double d = 1. / norm();
-	this->operator*=(d);
-}
-///////////////////////////////////////////////////////////////////////////
-Line3::Line3()
-{
-}
-
-Line3::Line3(const Point3& p1, const Point3& p2) :
-	_p1(p1),
-	_p2(p2)
-{
-}
-
-const Point3& Line3::p1() const
-{
-	return _p1;
-}
-
-const Point3& Line3::p2() const
-{
-	return _p2;
-}
-
-void Line3::set_p1(const Point3& p)
-{
-	_p1 = p;
-}
-
-void Line3::set_p2(const Point3& p)
-{
-	_p2 = p;
-}
-///////////////////////////////////////////////////////////////////////////
-Segment3::Segment3()
-{
-}
-
-Segment3::Segment3(const Point3& p1, const Point3& p2) :
-	_p1(p1),
-	_p2(p2)
-{
-}
-
-const Point3& Segment3::p1() const
-{
-	return _p1;
-}
-
-const Point3& Segment3::p2() const
-{
-	return _p2;
-}
-
-void Segment3::set_p1(const Point3& p)
-{
-	_p1 = p;
-}
-
-void Segment3::set_p2(const Point3& p)
-{
-	_p2 = p;
-}
-
-double Segment3::norm() const
-{
-	return (_p1 - _p2).norm();
-}
-
-double Segment3::norm_square() const
-{
-	return (_p1 - _p2).norm_square();
-}
-
-bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
-{
-	// from https://paulbourke.net/geometry/pointlineplane/lineline.c
-	// and https://stackoverflow.com/questions/2316490/the-algorithm-to-find-the-point-of-intersection-of-two-3d-line-segment
-
-//	Calculate the line segment PaPb that is the shortest route between two lines P1P2 and P3P4.
-//		Pa = P1 + mua(P2 - P1) and	Pb = P3 + mub(P4 - P3)
-//		Return false if no solution exists.
-
-	const Point3 P1 = p1();
-	const Point3 P2 = p2();
-	const Point3 P3 = s.p1();
-	const Point3 P4 = s.p2();
-
-	double EPS = 1.e-10;
-
-	Point3 p13 = P1 - P3;
-	Point3 p43 = P4 - P3;
-
-	if (p43.norm_square() < EPS * EPS)
-		return false;
-
-	Point3 p21 = P2 - P1;
-
-	if (p21.norm_square() < EPS * EPS)
-		return false;
-
-	double d4321 = p43.dot_product(p21);
-	double d4343 = p43.dot_product(p43);
-	double d2121 = p21.dot_product(p21);
-
-	double denom = d2121 * d4343 - d4321 * d4321;
-	if (fabs(denom) < EPS)
-		return false;
-
-	double d1321 = p13.dot_product(p21);
-	double d1343 = p13.dot_product(p43);
-	double numerator = d1343 * d4321 - d1321 * d4343;
-	double mua = numerator / denom;
-
-	if ((mua < 0.) || (mua > 1.))
-		return false;
-
-	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
-
-	// can compute the nearest point on the other segment
-	// double mub = (d1343 + d4321 * mua) / d4343;
-	// pIntersectionb = P3 + p43 * mub;
-	//if ((mub < 0.) || (mub > 1.))
-	//	return false;
-
-	return true;
-}
-
-///////////////////////////////////////////////////////////////////////////
-Triangle3::Triangle3()
-{
-}
-
-Triangle3::Triangle3(const Point3& p1, const Point3& p2, const Point3& p3) :
-	_p1(p1), _p2(p2), _p3(p3)
-{
-}
-
-const Point3& Triangle3::p1() const
-{
-	return _p1;
-}
-
-const Point3& Triangle3::p2() const
-{
-	return _p2;
-}
-
-const Point3& Triangle3::p3() const
-{
-	return _p3;
-}
-
-void Triangle3::set_p1(const Point3& p)
-{
-	_p1 = p;
-}
-
-void Triangle3::set_p2(const Point3& p)
-{
-	_p2 = p;
-}
-
-void Triangle3::set_p3(const Point3& p)
-{
-	_p3 = p;
-}
-
-bool Triangle3::cutted_by(const Plane3& p) const
-{
-	int nbPositive = 0, nbNegative = 0;
-
-	double proj1 = p.distance_to(p1());
-	if (proj1 > 0.) nbPositive++;
-	if (proj1 < 0.) nbNegative++;
-
-	double proj2 = p.distance_to(p2());
-	if (proj2 > 0.) nbPositive++;
-	if (proj2 < 0.) nbNegative++;
-
-	double proj3 = p.distance_to(p3());
-	if (proj3 > 0.) nbPositive++;
-	if (proj3 < 0.) nbNegative++;
-
-	return ((nbPositive > 0) && (nbNegative > 0));
-}
-
-bool Triangle3::contains(const Point3& p) const
-{
-	// from https://gdbooks.gitbooks.io/3dcollisions/content/Chapter4/point_in_triangle.html
-
-	Point3 a = _p1 - p;
-	Point3 b = _p2 - p;
-	Point3 c = _p3 - p;
-
-	Point3 u = b.cross_product(c);
-
-	Point3 v = c.cross_product(a);
-	if (u.dot_product(v) < 0.)
-		return false;
-
-	Point3 w = a.cross_product(b);
-	if (u.dot_product(w) < 0.)
-		return false;
-
-	// needed when p is on the line (p2,p3): u is null
-	if (v.dot_product(w) < 0.)
-		return false;
-
-	return true;
-}
-
-bool Triangle3::intersect_with(const Segment3& s, Point3& pIntersection) const
-{
-	Plane3 p(*this);
-
-	if (p.intersect_with(s, pIntersection) == false)
-		return false;
-
-	return contains(pIntersection);
-}
-
-bool Triangle3::intersect_with(const Triangle3& t) const
-{
-	// first tests from https://web.stanford.edu/class/cs277/resources/papers/Moller1997b.pdf
-
-	BoundingBox3 bA(*this);
-	BoundingBox3 bB(t);
-	Point3 pInter;
-
-	if (bA.intersect_with(bB) == false)
-		return false;
-
-	Plane3 planeB(t);
-	if (cutted_by(planeB) == false)
-		return false;
-
-	Plane3 planeA(*this);
-	if (t.cutted_by(planeA) == false)
-		return false;
-
-	//compute if any segment cut any triangles, slow but easy
-	if (intersect_with(Segment3(t.p1(), t.p2()), pInter))
-		return true;
-
-	if (intersect_with(Segment3(t.p1(), t.p3()), pInter))
-		return true;
-
-	if (intersect_with(Segment3(t.p2(), t.p3()), pInter))
-		return true;
-
-	if (t.intersect_with(Segment3(p1(), p2()), pInter))
-		return true;
-
-	if (t.intersect_with(Segment3(p1(), p3()), pInter))
-		return true;
-
-	if (t.intersect_with(Segment3(p2(), p3()), pInter))
-		return true;
-
-	return false;
-}
-
-double Triangle3::surface() const
-{
-	return orthogonal().norm() * 0.5;
-}
-
-Point3 Triangle3::normal() const
-{
-	return orthogonal().normalized();
-}
-
-Point3 Triangle3::orthogonal() const
-{
-	return (_p1 - _p2).cross_product(_p1 - _p3);
-}
-
-///////////////////////////////////////////////////////////////////////////
-Plane3::Plane3()
-{
-	_a = 0.; _b = 0.; _c = 0.; _d = 0.;
-}
-
-Plane3::Plane3(const Point3& p1, const Point3& p2, const Point3& p3)
-{
-	compute_using(p1, p2, p3);
-}
-
-Plane3::Plane3(const Triangle3& t)
-{
-	compute_using(t.p1(), t.p2(), t.p3());
-}
-
-void Plane3::compute_using(const Point3& p1, const Point3& p2, const Point3& p3)
-{
-	//compute normal using the cross product, and normalize (can be removed ?)
-	Point3 pn = ((p1 - p2).cross_product(p1 - p3)).normalized();
-
-	_a = pn._x; _b = pn._y; _c = pn._z;
-
-	//compute _d (the plane must pass at p1)
-	_d = -(_a * p1._x + _b * p1._y + _c * p1._z);
-}
-
-void Plane3::compute_using(const Triangle3& t)
-{
-	compute_using(t.p1(), t.p2(), t.p3());
-}
-
-double Plane3::distance_to(const Point3& p) const
-{
-	return _a * p._x + _b * p._y + _c * p._z + _d;
-}
-
-void Plane3::get(double& a, double& b, double& c, double& d) const
-{
-	a = _a; b = _b; c = _c; d = _d;
-}
-
-bool Plane3::intersect_with(const Segment3& s, Point3& pIntersection) const
-{
-	Point3 p1 = s.p1();
-	Point3 p2 = s.p2();
-
-	double k = _a * p1._x + _b * p1._y + _c * p1._z + _d;
-	double u = _a * (p2._x - p1._x) + _b * (p2._y - p1._y) + _c * (p2._z - p1._z);
-
-	if (u == 0.)
-		return false; // no intersection, parallel
-
-	double t = -k / u;
-	if ((t <= 0.) || (t >= 1.)) //must be in the segment (not a line)
-		return false;
-
-	pIntersection._x = p1._x + t * (p2._x - p1._x);
-	pIntersection._y = p1._y + t * (p2._y - p1._y);
-	pIntersection._z = p1._z + t * (p2._z - p1._z);
-
-	return true;
-}
-
-bool Plane3::intersect_with(const Plane3& p, Line3& pIntersection) const
-{
-	double espilon = 1.e-8;
-
-	// compute the line direction
-	Point3 direction = normal().cross_product(p.normal());
-	if (direction.norm_square() < espilon * espilon)
-		return false;
-
-	//compute one intersection point
-
-	//Plane3 p4(Point3(), this->normal() * this->_d, p.normal() * p._d);
-
-
-	//todo
-
-	return true;
-}
-
-void Plane3::project_point(const Point3& p, Point3& projected) const
-{
-	// from: https://stackoverflow.com/questions/9605556/how-to-project-a-point-onto-a-plane-in-3d
-
-	projected = p - (normal() * (normal().dot_product(p) + _d));
-}
-
-Point3 Plane3::normal() const // normalized
-{
-	return Point3(_a, _b, _c);
-}
-///////////////////////////////////////////////////////////////////////////
-BoundingBox3::BoundingBox3()
-{
-	_bInitialized = false;
-	_x1 = 0.; _y1 = 0.; _z1 = 0.;
-	_x2 = 0.; _y2 = 0.; _z2 = 0.;
-}
-
-BoundingBox3::BoundingBox3(const Triangle3& t)
-{
-	_bInitialized = false;
-	add(t.p1());
-	add(t.p2());
-	add(t.p3());
-}
-
-void BoundingBox3::add(const Point3& p1)
-{
-	double x = p1._x;
-	double y = p1._y;
-	double z = p1._z;
-
-	if (_bInitialized == false)
-	{
-		_x1 = x; _y1 = y; _z1 = z;
-		_x2 = x; _y2 = y; _z2 = z;
-		_bInitialized = true;
-		return;
-	}
-
-	if (x < _x1)
-		_x1 = x;
-	else if (x > _x2)
-		_x2 = x;
-
-	if (y < _y1)
-		_y1 = y;
-	else if (y > _y2)
-		_y2 = y;
-
-	if (z < _z1)
-		_z1 = z;
-	else if (z > _z2)
-		_z2 = z;
-}
-
-bool BoundingBox3::intersect_with(const BoundingBox3& b) const
-{
-	if (_x2 < b._x1)
-		return false;
-
-	if (_y2 < b._y1)
-		return false;
-
-	if (_z2 < b._z1)
-		return false;
-
-	if (b._x2 < _x1)
-		return false;
-
-	if (b._y2 < _y1)
-		return false;
-
-	if (b._z2 < _z1)
-		return false;
-
-	return true;
-}
-///////////////////////////////////////////////////////////////////////////
-
+#include "Geometry.h"
+
+#include <cmath>
+
+inline double squared(double a) //todo factorize ?
+{
+	return a * a;
+}
+
+///////////////////////////////////////////////////////////////////////////
+Point3::Point3()
+{
+	_x = 0.; _y = 0.; _z = 0.;
+}
+
+Point3::Point3(double x, double y, double z)
+{
+	_x = x; _y = y; _z = z;
+}
+
+
+double& Point3::x()
+{
+	return _x;
+}
+
+double& Point3::y()
+{
+	return _y;
+}
+
+double& Point3::z()
+{
+	return _z;
+}
+
+const double& Point3::x() const
+{
+	return _x;
+}
+
+const double& Point3::y() const
+{
+	return _y;
+}
+
+const double& Point3::z() const
+{
+	return _z;
+}
+
+
+Point3& Point3::operator+=(const Point3& p)
+{
+	_x += p._x;
+	_y += p._y;
+	_z += p._z;
+
+	return *this;
+}
+
+Point3& Point3::operator-=(const Point3& p)
+{
+	_x -= p._x;
+	_y -= p._y;
+	_z -= p._z;
+
+	return *this;
+}
+
+Point3& Point3::operator*=(double d)
+{
+	_x *= d;
+	_y *= d;
+	_z *= d;
+
+	return *this;
+}
+
+Point3& Point3::operator/=(double d)
+{
+	_x /= d;
+	_y /= d;
+	_z /= d;
+
+	return *this;
+}
+
+
+Point3 Point3::operator+(const Point3& p) const
+{
+	Point3 res;
+
+	res._x = _x + p._x;
+	res._y = _y + p._y;
+	res._z = _z + p._z;
+
+	return res;
+}
+
+Point3 Point3::operator*(double d) const
+{
+	Point3 res;
+
+	res._x = d * _x;
+	res._y = d * _y;
+	res._z = d * _z;
+
+	return res;
+}
+
+Point3 Point3::operator/(double d) const
+{
+	Point3 res;
+
+	res._x = _x / d;
+	res._y = _y / d;
+	res._z = _z / d;
+
+	return res;
+}
+
+Point3 Point3::operator-(const Point3& p) const
+{
+	Point3 res;
+
+	res._x = _x - p._x;
+	res._y = _y - p._y;
+	res._z = _z - p._z;
+
+	return res;
+}
+
+double Point3::distance_square(const Point3& p) const
+{
+	return squared(_x - p._x) + squared(_y - p._y) + squared(_z - p._z);
+}
+
+double Point3::dot_product(const Point3& p) const
+{
+	return _x * p._x + _y * p._y + _z * p._z;
+}
+
+Point3 Point3::cross_product(const Point3& p) const
+{
+	// from https://en.wikipedia.org/wiki/Cross_product
+	return Point3(_y * p._z - _z * p._y, _z * p._x - _x * p._z, _x * p._y - _y * p._x);
+}
+
+double Point3::norm() const
+{
+	return sqrt(_x * _x + _y * _y + _z * _z);
+}
+
+double Point3::norm_square() const
+{
+	return _x * _x + _y * _y + _z * _z;
+}
+
+Point3 Point3::normalized() const
+{
+	double d = 1. / norm();
+	return this->operator*(d);
+}
+void Point3::normalize()
+{
+	double d = 1. / norm();
+	this->operator*=(d);
+}
+///////////////////////////////////////////////////////////////////////////
+Line3::Line3()
+{
+}
+
+Line3::Line3(const Point3& p1, const Point3& p2) :
+	_p1(p1),
+	_p2(p2)
+{
+}
+
+const Point3& Line3::p1() const
+{
+	return _p1;
+}
+
+const Point3& Line3::p2() const
+{
+	return _p2;
+}
+
+void Line3::set_p1(const Point3& p)
+{
+	_p1 = p;
+}
+
+void Line3::set_p2(const Point3& p)
+{
+	_p2 = p;
+}
+///////////////////////////////////////////////////////////////////////////
+Segment3::Segment3()
+{
+}
+
+Segment3::Segment3(const Point3& p1, const Point3& p2) :
+	_p1(p1),
+	_p2(p2)
+{
+}
+
+const Point3& Segment3::p1() const
+{
+	return _p1;
+}
+
+const Point3& Segment3::p2() const
+{
+	return _p2;
+}
+
+void Segment3::set_p1(const Point3& p)
+{
+	_p1 = p;
+}
+
+void Segment3::set_p2(const Point3& p)
+{
+	_p2 = p;
+}
+
+double Segment3::norm() const
+{
+	return (_p1 - _p2).norm();
+}
+
+double Segment3::norm_square() const
+{
+	return (_p1 - _p2).norm_square();
+}
+
+bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
+{
+	// from https://paulbourke.net/geometry/pointlineplane/lineline.c
+	// and https://stackoverflow.com/questions/2316490/the-algorithm-to-find-the-point-of-intersection-of-two-3d-line-segment
+
+//	Calculate the line segment PaPb that is the shortest route between two lines P1P2 and P3P4.
+//		Pa = P1 + mua(P2 - P1) and	Pb = P3 + mub(P4 - P3)
+//		Return false if no solution exists.
+
+	const Point3 P1 = p1();
+	const Point3 P2 = p2();
+	const Point3 P3 = s.p1();
+	const Point3 P4 = s.p2();
+
+	double EPS = 1.e-10;
+
+	Point3 p13 = P1 - P3;
+	Point3 p43 = P4 - P3;
+
+	if (p43.norm_square() < EPS * EPS)
+		return false;
+
+	Point3 p21 = P2 - P1;
+
+	if (p21.norm_square() < EPS * EPS)
+		return false;
+
+	double d4321 = p43.dot_product(p21);
+	double d4343 = p43.dot_product(p43);
+	double d2121 = p21.dot_product(p21);
+
+	double denom = d2121 * d4343 - d4321 * d4321;
+	if (fabs(denom) < EPS)
+		return false;
+
+	double d1321 = p13.dot_product(p21);
+	double d1343 = p13.dot_product(p43);
+	double numerator = d1343 * d4321 - d1321 * d4343;
+	double mua = numerator / denom;
+
+	if ((mua < 0.) || (mua > 1.))
+		return false;
+
+	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
+
+	// can compute the nearest point on the other segment
+	// double mub = (d1343 + d4321 * mua) / d4343;
+	// pIntersectionb = P3 + p43 * mub;
+	//if ((mub < 0.) || (mub > 1.))
+	//	return false;
+
+	return true;
+}
+
+///////////////////////////////////////////////////////////////////////////
+Triangle3::Triangle3()
+{
+}
+
+Triangle3::Triangle3(const Point3& p1, const Point3& p2, const Point3& p3) :
+	_p1(p1), _p2(p2), _p3(p3)
+{
+}
+
+const Point3& Triangle3::p1() const
+{
+	return _p1;
+}
+
+const Point3& Triangle3::p2() const
+{
+	return _p2;
+}
+
+const Point3& Triangle3::p3() const
+{
+	return _p3;
+}
+
+void Triangle3::set_p1(const Point3& p)
+{
+	_p1 = p;
+}
+
+void Triangle3::set_p2(const Point3& p)
+{
+	_p2 = p;
+}
+
+void Triangle3::set_p3(const Point3& p)
+{
+	_p3 = p;
+}
+
+bool Triangle3::cutted_by(const Plane3& p) const
+{
+	int nbPositive = 0, nbNegative = 0;
+
+	double proj1 = p.distance_to(p1());
+	if (proj1 > 0.) nbPositive++;
+	if (proj1 < 0.) nbNegative++;
+
+	double proj2 = p.distance_to(p2());
+	if (proj2 > 0.) nbPositive++;
+	if (proj2 < 0.) nbNegative++;
+
+	double proj3 = p.distance_to(p3());
+	if (proj3 > 0.) nbPositive++;
+	if (proj3 < 0.) nbNegative++;
+
+	return ((nbPositive > 0) && (nbNegative > 0));
+}
+
+bool Triangle3::contains(const Point3& p) const
+{
+	// from https://gdbooks.gitbooks.io/3dcollisions/content/Chapter4/point_in_triangle.html
+
+	Point3 a = _p1 - p;
+	Point3 b = _p2 - p;
+	Point3 c = _p3 - p;
+
+	Point3 u = b.cross_product(c);
+
+	Point3 v = c.cross_product(a);
+	if (u.dot_product(v) < 0.)
+		return false;
+
+	Point3 w = a.cross_product(b);
+	if (u.dot_product(w) < 0.)
+		return false;
+
+	// needed when p is on the line (p2,p3): u is null
+	if (v.dot_product(w) < 0.)
+		return false;
+
+	return true;
+}
+
+bool Triangle3::intersect_with(const Segment3& s, Point3& pIntersection) const
+{
+	Plane3 p(*this);
+
+	if (p.intersect_with(s, pIntersection) == false)
+		return false;
+
+	return contains(pIntersection);
+}
+
+bool Triangle3::intersect_with(const Triangle3& t) const
+{
+	// first tests from https://web.stanford.edu/class/cs277/resources/papers/Moller1997b.pdf
+
+	BoundingBox3 bA(*this);
+	BoundingBox3 bB(t);
+	Point3 pInter;
+
+	if (bA.intersect_with(bB) == false)
+		return false;
+
+	Plane3 planeB(t);
+	if (cutted_by(planeB) == false)
+		return false;
+
+	Plane3 planeA(*this);
+	if (t.cutted_by(planeA) == false)
+		return false;
+
+	//compute if any segment cut any triangles, slow but easy
+	if (intersect_with(Segment3(t.p1(), t.p2()), pInter))
+		return true;
+
+	if (intersect_with(Segment3(t.p1(), t.p3()), pInter))
+		return true;
+
+	if (intersect_with(Segment3(t.p2(), t.p3()), pInter))
+		return true;
+
+	if (t.intersect_with(Segment3(p1(), p2()), pInter))
+		return true;
+
+	if (t.intersect_with(Segment3(p1(), p3()), pInter))
+		return true;
+
+	if (t.intersect_with(Segment3(p2(), p3()), pInter))
+		return true;
+
+	return false;
+}
+
+double Triangle3::surface() const
+{
+	return orthogonal().norm() * 0.5;
+}
+
+Point3 Triangle3::normal() const
+{
+	return orthogonal().normalized();
+}
+
+Point3 Triangle3::orthogonal() const
+{
+	return (_p1 - _p2).cross_product(_p1 - _p3);
+}
+
+///////////////////////////////////////////////////////////////////////////
+Plane3::Plane3()
+{
+	_a = 0.; _b = 0.; _c = 0.; _d = 0.;
+}
+
+Plane3::Plane3(const Point3& p1, const Point3& p2, const Point3& p3)
+{
+	compute_using(p1, p2, p3);
+}
+
+Plane3::Plane3(const Triangle3& t)
+{
+	compute_using(t.p1(), t.p2(), t.p3());
+}
+
+void Plane3::compute_using(const Point3& p1, const Point3& p2, const Point3& p3)
+{
+	//compute normal using the cross product, and normalize (can be removed ?)
+	Point3 pn = ((p1 - p2).cross_product(p1 - p3)).normalized();
+
+	_a = pn._x; _b = pn._y; _c = pn._z;
+
+	//compute _d (the plane must pass at p1)
+	_d = -(_a * p1._x + _b * p1._y + _c * p1._z);
+}
+
+void Plane3::compute_using(const Triangle3& t)
+{
+	compute_using(t.p1(), t.p2(), t.p3());
+}
+
+double Plane3::distance_to(const Point3& p) const
+{
+	return _a * p._x + _b * p._y + _c * p._z + _d;
+}
+
+void Plane3::get(double& a, double& b, double& c, double& d) const
+{
+	a = _a; b = _b; c = _c; d = _d;
+}
+
+bool Plane3::intersect_with(const Segment3& s, Point3& pIntersection) const
+{
+	Point3 p1 = s.p1();
+	Point3 p2 = s.p2();
+
+	double k = _a * p1._x + _b * p1._y + _c * p1._z + _d;
+	double u = _a * (p2._x - p1._x) + _b * (p2._y - p1._y) + _c * (p2._z - p1._z);
+
+	if (u == 0.)
+		return false; // no intersection, parallel
+
+	double t = -k / u;
+	if ((t <= 0.) || (t >= 1.)) //must be in the segment (not a line)
+		return false;
+
+	pIntersection._x = p1._x + t * (p2._x - p1._x);
+	pIntersection._y = p1._y + t * (p2._y - p1._y);
+	pIntersection._z = p1._z + t * (p2._z - p1._z);
+
+	return true;
+}
+
+bool Plane3::intersect_with(const Plane3& p, Line3& pIntersection) const
+{
+	double espilon = 1.e-8;
+
+	// compute the line direction
+	Point3 direction = normal().cross_product(p.normal());
+	if (direction.norm_square() < espilon * espilon)
+		return false;
+
+	//compute one intersection point
+
+	//Plane3 p4(Point3(), this->normal() * this->_d, p.normal() * p._d);
+
+
+	//todo
+
+	return true;
+}
+
+void Plane3::project_point(const Point3& p, Point3& projected) const
+{
+	// from: https://stackoverflow.com/questions/9605556/how-to-project-a-point-onto-a-plane-in-3d
+
+	projected = p - (normal() * (normal().dot_product(p) + _d));
+}
+
+Point3 Plane3::normal() const // normalized
+{
+	return Point3(_a, _b, _c);
+}
+///////////////////////////////////////////////////////////////////////////
+BoundingBox3::BoundingBox3()
+{
+	_bInitialized = false;
+	_x1 = 0.; _y1 = 0.; _z1 = 0.;
+	_x2 = 0.; _y2 = 0.; _z2 = 0.;
+}
+
+BoundingBox3::BoundingBox3(const Triangle3& t)
+{
+	_bInitialized = false;
+	add(t.p1());
+	add(t.p2());
+	add(t.p3());
+}
+
+void BoundingBox3::add(const Point3& p1)
+{
+	double x = p1._x;
+	double y = p1._y;
+	double z = p1._z;
+
+	if (_bInitialized == false)
+	{
+		_x1 = x; _y1 = y; _z1 = z;
+		_x2 = x; _y2 = y; _z2 = z;
+		_bInitialized = true;
+		return;
+	}
+
+	if (x < _x1)
+		_x1 = x;
+	else if (x > _x2)
+		_x2 = x;
+
+	if (y < _y1)
+		_y1 = y;
+	else if (y > _y2)
+		_y2 = y;
+
+	if (z < _z1)
+		_z1 = z;
+	else if (z > _z2)
+		_z2 = z;
+}
+
+bool BoundingBox3::intersect_with(const BoundingBox3& b) const
+{
+	if (_x2 < b._x1)
+		return false;
+
+	if (_y2 < b._y1)
+		return false;
+
+	if (_z2 < b._z1)
+		return false;
+
+	if (b._x2 < _x1)
+		return false;
+
+	if (b._y2 < _y1)
+		return false;
+
+	if (b._z2 < _z1)
+		return false;
+
+	return true;
+}
+///////////////////////////////////////////////////////////////////////////
+
-- 
2.43.0


From 4be72167eb382c200a9187108e959440f3f19f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:14 +0000
Subject: [PATCH 26/26] fix: the patches of mirrored octants of the smooth
 sphere are oriented like the others

---
 src/SmoothMeshFactory.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SmoothMeshFactory.cpp b/src/SmoothMeshFactory.cpp
index 6458eee..dd1f680 100644
--- a/src/SmoothMeshFactory.cpp
+++ b/src/SmoothMeshFactory.cpp
@@ -192,22 +192,22 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(-d, d, 0), Point3(-d, 0, d), Point3(0, d, d));
+			st.set_points(Point3(0, d, 0), Point3(-d, 0, 0), Point3(0, 0, d));
+			st.set_control_points(Point3(-d, d, 0), Point3(0, d, d), Point3(-d, 0, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, -d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(d, -d, 0), Point3(d, 0, d), Point3(0, -d, d));
+			st.set_points(Point3(0, -d, 0), Point3(d, 0, 0), Point3(0, 0, d));
+			st.set_control_points(Point3(d, -d, 0), Point3(0, -d, d), Point3(d, 0, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(d, d, 0), Point3(d, 0, -d), Point3(0, d, -d));
+			st.set_points(Point3(0, d, 0), Point3(d, 0, 0), Point3(0, 0, -d));
+			st.set_control_points(Point3(d, d, 0), Point3(0, d, -d), Point3(d, 0, -d));
 			m.add_triangle(st);
 		}
 
@@ -220,8 +220,8 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, -d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(-d, -d, 0), Point3(-d, 0, -d), Point3(0, -d, -d));
+			st.set_points(Point3(0, -d, 0), Point3(-d, 0, 0), Point3(0, 0, -d));
+			st.set_control_points(Point3(-d, -d, 0), Point3(0, -d, -d), Point3(-d, 0, -d));
 			m.add_triangle(st);
 		}
 
-- 
2.43.0

