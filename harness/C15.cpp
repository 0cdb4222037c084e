// BOUNDS: all points with coordinates in [-8,8]; lines and planes through every such point with one of six fixed directions (all ordered pairs of them for two-line and two-plane questions) and, for the point-line questions, every direction of length at least 0.3; separations are zero or at least 1e-3 (the code's own tolerance is 1e-10)
// OUTSIDE: rounding, configurations closer to degenerate than the separation stated above, angles beyond their sine/cosine
#include "h.h"
#include "mml/base/Geometry/Geometry3D.h"
typedef Pnt3Cart P; typedef Vec3Cart V;
static P pt(const char *n, double lo = -8, double hi = 8) { double x = sym::real(n, 0, lo, hi), y = sym::real(n, 1, lo, hi), z = sym::real(n, 2, lo, hi); return P(x, y, z); }
static V vc(const char *n, double lo = -8, double hi = 8) { double x = sym::real(n, 0, lo, hi), y = sym::real(n, 1, lo, hi), z = sym::real(n, 2, lo, hi); return V(x, y, z); }
static double dot(V a, V b) { return a.X() * b.X() + a.Y() * b.Y() + a.Z() * b.Z(); }
static V crs(V a, V b) { return V(a.Y() * b.Z() - a.Z() * b.Y(), a.Z() * b.X() - a.X() * b.Z(), a.X() * b.Y() - a.Y() * b.X()); }
static V df(P a, P b) { return V(b.X() - a.X(), b.Y() - a.Y(), b.Z() - a.Z()); }
static double n2(V a) { return dot(a, a); }
static void z3(V a, const char *l, double tol = 1e-6) { sym::eq(a.X(), 0, l, tol); sym::eq(a.Y(), 0, l, tol); sym::eq(a.Z(), 0, l, tol); }
static void eqP(P a, P b, const char *l, double tol = 1e-6) { z3(df(a, b), l, tol); }
static P at(P p, double t, V d) { return P(p.X() + t * d.X(), p.Y() + t * d.Y(), p.Z() + t * d.Z()); }
// integer directions with their lengths squared; 0..2 have rational unit vectors
static V dir(int k) { static const int d[6][3] = {{0, 0, 1}, {1, 2, 2}, {-2, 6, 3}, {1, 0, 0}, {0, -4, 3}, {1, 1, -1}}; return V(d[k][0], d[k][1], d[k][2]); }
static P off(P p, V d, double a, double b) { V e = n2(crs(d, V(0, 0, 1))) > 0.5 ? crs(d, V(0, 0, 1)) : V(1, 0, 0), f = crs(d, e); return at(at(p, a, e), b, f); } // every point, with an axial shift, is off(at(p,t,d),d,a,b)
CASE(line) { P p = pt("p"), q = pt("q"); V d = vc("d", -4, 4); sym::assume(n2(d) > 0.1); Line3D l(p, d); V u = l.Direction(); sym::obs("ux", u.X()); sym::eq(n2(u), 1, "unit direction"); z3(crs(u, d), "direction is parallel to the one given"); sym::check(dot(u, d) > 0, "direction has the given sense"); double t = sym::real("t", -8, 8); P x = l(t); z3(crs(df(p, x), d), "points of the line lie on it"); sym::eq(n2(df(p, x)), t * t, "arc-length parameter", 1e-6);
  double D = l.Dist(q); sym::check(D >= 0, "distance is nonnegative"); sym::eq(D * D * n2(d), n2(crs(df(p, q), d)), "point-line distance", 1e-5); P c = l.NearestPointOnLine(q); z3(crs(df(p, c), d), "nearest point is on the line", 1e-5); sym::eq(dot(df(c, q), d), 0, "nearest point is the foot of the perpendicular", 1e-5); sym::obs("D", D); }
CASE(line2p) { P p = pt("p"), q = pt("q"); sym::assume(n2(df(p, q)) > 0.1); Line3D l(p, q); sym::check(l.IsPointOnLine(p), "first point is on the line"); z3(crs(l.Direction(), df(p, q)), "direction joins the points"); sym::eq(l.Dist(q), 0, "second point is at distance zero"); sym::check(THROWS(GeometryError, Line3D b(p, p)), "identical points are refused"); sym::check(THROWS(GeometryError, Line3D b(p, V(0, 0, 0))), "null direction is refused"); sym::obs("x", l.Direction().X()); }
CASEN(onl, 0, 5, 5) { P p = pt("p", -4, 4); V d = dir(n); Line3D l(p, d); double t = sym::real("t", -4, 4), a = sym::real("a", -4, 4), b = sym::real("b", -4, 4); sym::assume(sep(a) & sep(b)); P q = off(at(p, t, d), d, a, b); bool on = (a == 0) & (b == 0); sym::check(l.IsPointOnLine(q) == on, "IsPointOnLine iff the point is on the line"); sym::obs("q", q.X());
  int r = sym_throws<GeometryError>([&] { Line3D m = l.PerpendicularLineThroughPoint(q); sym::check(!on, "a perpendicular exists only off the line"); sym::eq(dot(m.Direction(), d), 0, "perpendicular direction", 1e-6); sym::eq(m.Dist(q), 0, "perpendicular passes through the point", 1e-6); Line3D k = m; sym::eq(k.Dist(l.NearestPointOnLine(q)), 0, "perpendicular meets the line", 1e-5); }); sym::check(r == (on ? 1 : 0), "perpendicular through a point of the line is refused"); }
// two lines with fixed directions i,j; p2 = p + s*d1 + t*d2 + h*(d1 x d2)
CASEN(pair, 0, 35, 35) { V d1 = dir(n / 6), d2 = dir(n % 6), w = crs(d1, d2); bool flip = n % 6 > 2; if (flip) d2 = -d2; w = crs(d1, d2); P p = pt("p", -4, 4); double s = sym::real("s", -4, 4), t = sym::real("t", -4, 4); bool par = n2(w) < 0.5; Line3D l(p, d1);
  double c = dot(d1, d2); { Line3D m(p, d2); sym::check(l.IsParallel(m) == par, "parallel iff the directions are linearly dependent"); sym::check(l.IsPerpendicular(m) == (c == 0), "perpendicular iff the directions are orthogonal"); sym::check(m.IsPerpendicular(l) == (c == 0), "perpendicularity is symmetric"); }
  if (par) { double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4); sym::assume(sep(a) & sep(b)); P q = off(at(p, s, d1), d1, a, b); Line3D m(q, d2); bool same = (a == 0) & (b == 0); double D = l.Dist(m); V o = df(at(p, s, d1), q); sym::check(D >= 0, "distance of parallel lines is nonnegative"); sym::eq(D * D, n2(o), "distance of parallel lines", 1e-5); double D2 = -1; P x, y; sym::check(!l.Dist(m, D2, x, y), "nearest points of parallel lines are not defined"); sym::eq(D2, D, "both distances agree"); auto r = l.Intersection(m); sym::check(same ? r.IsCoincident() : r.type == LineIntersectionType3D::Parallel, "parallel and coincident lines are told apart"); sym::check((l == m) == same, "lines are equal iff they have the same points"); P z; sym::check(l.Intersects(m, z) == same, "coincident lines intersect, parallel ones do not"); sym::obs("D", D); }
  else { double h = sym::real("h", -4, 4); sym::assume(sep(h)); P f = at(p, s, d1), g = at(f, h, w), q = at(g, -t, d2); Line3D m(q, d2); double D = l.Dist(m), D2 = -1; P x, y; sym::eq(D * D, h * h * n2(w), "distance of skew lines", 1e-4); sym::check(D >= 0, "distance of skew lines is nonnegative"); sym::check(l.Dist(m, D2, x, y), "nearest points of skew lines exist"); sym::eq(D2, D, "both distances agree", 1e-6); eqP(x, f, "nearest point on the first line", 1e-5); eqP(y, g, "nearest point on the second line", 1e-5);
    auto r = l.Intersection(m); sym::check(r.type == (h == 0 ? LineIntersectionType3D::Point : LineIntersectionType3D::Skew), "lines meet in a point iff their distance is zero"); eqP(r.point1, f, "closest point on the first line", 1e-5); eqP(r.point2, g, "closest point on the second line", 1e-5); sym::eq(r.distance, D, "reported distance", 1e-5); eqP(l(r.t1), f, "first parameter", 1e-5); eqP(m(r.t2), g, "second parameter", 1e-5); P z; bool hit = l.Intersects(m, z); sym::check(hit == (h == 0), "Intersects iff the lines meet"); if (hit) eqP(z, f, "intersection point", 1e-5); sym::check(!(l == m), "lines of different direction are not equal"); sym::obs("D", D); } }
CASEN(seg, 0, 5, 5) { V d = dir(n); P p = pt("p", -4, 4); double L = sym::real("L", 0.0625, 4), t = sym::real("t", -4, 8), a = sym::real("a", -4, 4), b = sym::real("b", -4, 4); SegmentLine3D s(p, d, L); P q = off(at(p, t, d), d, a, b); eqP(s.EndPoint(), at(p, L, d), "end point", 1e-6); sym::eq(s.Length() * s.Length(), L * L * n2(d), "length", 1e-5); double D = s.Dist(q), k = t < 0 ? 0 : t > L ? L : t; sym::check(D >= 0, "distance to a segment is nonnegative"); sym::eq(D * D, n2(df(at(p, k, d), q)), "distance to a segment", 1e-4); double u = sym::real("u", -2, 2); int r = sym_throws<GeometryError>([&] { eqP(s(u), at(p, u * L, d), "point on the segment", 1e-6); }); sym::check(r == !((u >= 0) & (u <= 1)), "parameters outside [0,1] are refused"); SegmentLine3D z(p, p); double D0 = z.Dist(q); sym::eq(D0 * D0, n2(df(p, q)), "distance to a degenerate segment", 1e-4); sym::obs("D", D); }
// planes
CASE(plane) { P p = pt("p"), q = pt("q"); V m = vc("m", -4, 4); sym::assume(n2(m) > 0.1); Plane3D e(p, m); V N = e.Normal(); sym::eq(n2(N), 1, "unit normal"); z3(crs(N, m), "normal as given"); sym::check(dot(N, m) > 0, "normal sense as given"); sym::check(e.IsPointOnPlane(p), "the defining point is on the plane"); double f = dot(df(p, q), m), D = e.DistToPoint(q); sym::check(D >= 0, "distance is nonnegative"); sym::eq(D * D * n2(m), f * f, "distance from a plane", 1e-4); P c = e.ProjectionToPlane(q); sym::eq(dot(df(p, c), m), 0, "projection lies on the plane", 1e-5); z3(crs(df(c, q), m), "projection is along the normal", 1e-5); sym::obs("D", D); sym::check(THROWS(GeometryError, Plane3D b(p, V(0, 0, 0))), "null normal is refused"); }
CASEN(planepts, 0, 5, 5) { P p = pt("p"); V d = dir(n), e = dir((n + 1) % 6); double a = sym::real("a", 0.0625, 4), b = sym::real("b", 0.0625, 4); P q = at(p, a, d), r = at(p, b, e); Plane3D s(p, q, r); sym::check(s.IsPointOnPlane(p) & s.IsPointOnPlane(q) & s.IsPointOnPlane(r), "the three points are on their plane"); double u = sym::real("u", -4, 4), v = sym::real("v", -4, 4), h = sym::real("h", -4, 4); sym::assume(sep(h)); V w = crs(d, e); P x = at(at(at(p, u, d), v, e), h, w); sym::check(s.IsPointOnPlane(x) == (h == 0), "on the plane iff affine combination of the points"); z3(crs(s.Normal(), w), "normal orthogonal to the sides"); sym::check(dot(s.Normal(), w) > 0, "normal by the right-hand rule"); sym::check(THROWS(GeometryError, Plane3D z(p, q, at(p, b, d))), "collinear points are refused"); sym::obs("D", s.D()); }
CASE(axisseg) { double a = sym::real("a", -8, 8), b = sym::real("b", -8, 8), c = sym::real("c", -8, 8); sym::assume(sep(a, 0.0625) & sep(b, 0.0625) & sep(c, 0.0625)); int r = sym_throws<GeometryError>([&] { Plane3D e(a, b, c); sym::check(e.IsPointOnPlane(P(a, 0, 0)) & e.IsPointOnPlane(P(0, b, 0)) & e.IsPointOnPlane(P(0, 0, c)), "axis intercepts are on the plane"); double x, y, z; e.GetCoordAxisSegments(x, y, z); sym::eq(x, a, "x segment", 1e-5); sym::eq(y, b, "y segment", 1e-5); sym::eq(z, c, "z segment", 1e-5); sym::check(e.IsPointOnPlane(e.GetPointOnPlane()), "GetPointOnPlane is on the plane"); P q = pt("q"); double D = e.DistToPoint(q), f = q.X() / a + q.Y() / b + q.Z() / c - 1; sym::eq(D * D * (1 / (a * a) + 1 / (b * b) + 1 / (c * c)), f * f, "distance with a non-unit normal", 1e-3); P k = e.ProjectionToPlane(q); sym::eq(k.X() / a + k.Y() / b + k.Z() / c, 1, "projection with a non-unit normal", 1e-4); sym::obs("D", e.A()); }); sym::check(r == ((a == 0) | (b == 0) | (c == 0)), "zero segments are refused"); }
CASEN(point, 0, 5, 5) { P p = pt("p"); Plane3D e(p, dir(n)); P q = e.GetPointOnPlane(); sym::eq(dot(df(p, q), dir(n)), 0, "GetPointOnPlane is on the plane", 1e-5); double x, y, z; e.GetCoordAxisSegments(x, y, z); V d = dir(n); if (d.X() != 0) sym::eq(x * d.X(), dot(V(p.X(), p.Y(), p.Z()), d), "x axis segment", 1e-5); else sym::check(x > 1e300, "parallel axis has an infinite segment"); if (d.Y() != 0) sym::eq(y * d.Y(), dot(V(p.X(), p.Y(), p.Z()), d), "y axis segment", 1e-5); else sym::check(y > 1e300, "parallel axis has an infinite segment"); if (d.Z() != 0) sym::eq(z * d.Z(), dot(V(p.X(), p.Y(), p.Z()), d), "z axis segment", 1e-5); else sym::check(z > 1e300, "parallel axis has an infinite segment"); sym::obs("x", q.X()); }
CASE(std) { double x = sym::real("x"), y = sym::real("y"), z = sym::real("z"); P q(x, y, z); eqP(Plane3D::GetXYPlane().ProjectionToPlane(q), P(x, y, 0), "projection to XY"); eqP(Plane3D::GetXZPlane().ProjectionToPlane(q), P(x, 0, z), "projection to XZ"); eqP(Plane3D::GetYZPlane().ProjectionToPlane(q), P(0, y, z), "projection to YZ"); sym::obs("x", x); }
// line with direction i against plane with normal j
CASEN(lp, 0, 35, 35) { V d = dir(n / 6), m = dir(n % 6); if (n % 6 > 2) m = -m; P p = pt("p", -4, 4); double k = dot(d, m), t = sym::real("t", -4, 4); Plane3D e(p, m);
  if (k == 0) { double h = sym::real("h", -4, 4); sym::assume(sep(h)); P q = at(at(p, t, d), h, m); q = at(q, sym::real("s", -4, 4), crs(d, m)); Line3D l(q, d); P x; sym::check(!e.IntersectionWithLine(l, x), "a line parallel to the plane has no single intersection"); sym::check(e.IsLineOnPlane(l) == (h == 0), "line lies on the plane iff its points do"); sym::obs("q", q.X()); }
  else { P c = off(p, m, sym::real("a", -4, 4), sym::real("b", -4, 4)); P q = at(c, -t, d); Line3D l(q, d); P x; sym::check(e.IntersectionWithLine(l, x), "a line crossing the plane meets it"); eqP(x, c, "intersection of line and plane", 1e-5); sym::check(!e.IsLineOnPlane(l), "a crossing line is not on the plane"); sym::obs("x", x.X()); }
  Line3D l0(p, d); double A = e.AngleToLine(l0), sn = std::sin(A); sym::eq(sn * sn * n2(d) * n2(m), k * k, "sine of the angle between line and plane", 1e-4); sym::check((sn >= 0) == (k >= 0), "angle sign"); }
CASEN(pp, 0, 35, 35) { V a = dir(n / 6), b = dir(n % 6); if (n % 6 > 2) b = -b; P p = pt("p", -4, 4), q = pt("q", -4, 4); Plane3D e(p, a), f(q, b); V w = crs(a, b); bool par = n2(w) < 0.5; double k = dot(a, b); sym::check(e.IsParallelToPlane(f) == par, "planes are parallel iff their normals are"); sym::check(e.IsPerpendicularToPlane(f) == (k == 0), "planes are perpendicular iff their normals are"); double D = e.DistToPlane(f), h = dot(df(p, q), a); if (par) sym::eq(D * D * n2(a), h * h, "distance of parallel planes", 1e-4); else sym::eq(D, 0, "intersecting planes have distance zero"); sym::check(D >= 0, "distance of planes is nonnegative"); Line3D l(P(0, 0, 0), V(1, 0, 0)); bool hit = e.IntersectionWithPlane(f, l); sym::check(hit == !par, "planes intersect iff not parallel"); if (hit) { P s = l.StartPoint(); sym::eq(dot(df(p, s), a), 0, "intersection line is on the first plane", 1e-5); sym::eq(dot(df(q, s), b), 0, "intersection line is on the second plane", 1e-5); z3(crs(l.Direction(), w), "intersection line direction", 1e-5); } double cs = std::cos(e.AngleToPlane(f)); sym::eq(cs * cs * n2(a) * n2(b), k * k, "cosine of the angle between planes", 1e-4); sym::check((cs >= 0) == (k >= 0), "angle between planes sign"); sym::obs("D", D); }
CASE(dircos) { double a = sym::real("a", 0.1, 3), b = sym::real("b", 0.1, 3), c = sym::real("c", 0.1, 3), d = sym::real("d"); Plane3D e(a, b, c, d); sym::eq(e.A(), std::cos(a), "first direction cosine"); sym::eq(e.B(), std::cos(b), "second direction cosine"); sym::eq(e.C(), std::cos(c), "third direction cosine"); sym::eq(e.D(), -d, "distance from the origin"); }
