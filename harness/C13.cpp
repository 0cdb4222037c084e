// BOUNDS: all points with coordinates in [-8,8], radii in [0,8], every direction; two-segment intersections for five pairs of directions with arbitrary positions and lengths, line pairs for six directions of the second line; separations are zero or at least 1e-3 (the code's own tolerance is 1e-10)
// OUTSIDE: rounding, configurations closer to degenerate than the separation stated above, angles beyond their unit-circle identities
#include "h.h"
#include "mml/base/Geometry/Geometry.h"
#include "mml/base/Geometry/Geometry2D.h"
typedef Point2Cartesian P2; typedef Vector2Cartesian V2;
static P2 pt(const char *n, double lo = -8, double hi = 8) { double x = sym::real(n, 0, lo, hi), y = sym::real(n, 1, lo, hi); return P2(x, y); }
static double cr(P2 o, P2 a, P2 b) { return (a.X() - o.X()) * (b.Y() - o.Y()) - (a.Y() - o.Y()) * (b.X() - o.X()); }
static double dt(P2 o, P2 a, P2 b) { return (a.X() - o.X()) * (b.X() - o.X()) + (a.Y() - o.Y()) * (b.Y() - o.Y()); }
static double d2(P2 a, P2 b) { return (a.X() - b.X()) * (a.X() - b.X()) + (a.Y() - b.Y()) * (a.Y() - b.Y()); }
CASE(line) { P2 a = pt("a"), b = pt("b"), p = pt("p"); sym::assume(d2(a, b) > 0.01); Line2D l(a, b); double t = sym::real("t", -8, 8); sym::obs("dx", l.Direction().X()); V2 u = l.Direction(); sym::eq(u.X() * u.X() + u.Y() * u.Y(), 1, "unit direction"); P2 q = l(t); sym::eq(cr(a, b, q), 0, "points of the line are on the line"); sym::eq(d2(a, q), t * t, "arc-length parameter"); double D = l.DistanceToPoint(p), L2 = d2(a, b); sym::check(D >= 0, "distance nonnegative"); sym::eq(D * D * L2, cr(a, b, p) * cr(a, b, p), "distance to point", 1e-6); P2 c = l.ClosestPoint(p); sym::eq(cr(a, b, c), 0, "closest point is on the line"); sym::eq((c.X() - p.X()) * (b.X() - a.X()) + (c.Y() - p.Y()) * (b.Y() - a.Y()), 0, "closest point is the foot of the perpendicular"); sym::check(l.Contains(p) == (D < Constants::GEOMETRY_EPSILON), "containment"); Line2D m = l.Perpendicular(p); sym::eq(m.Direction().X() * u.X() + m.Direction().Y() * u.Y(), 0, "perpendicular direction"); sym::check(m.StartPoint() == p, "perpendicular passes through the point"); }
CASE(linedir) { P2 a = pt("a"), v = pt("v"); double k = sym::real("k", 0.5, 4); sym::assume(d2(P2(0, 0), v) > 0.01); Line2D l(a, V2(v.X(), v.Y())), m(a, V2(k * v.X(), k * v.Y())), w(a, P2(a.X() + v.X(), a.Y() + v.Y())); sym::obs("x", a.X()); sym::eq(l.Direction().X(), m.Direction().X(), "direction independent of length x"); sym::eq(l.Direction().Y(), m.Direction().Y(), "direction independent of length y"); sym::eq(l.Direction().X(), w.Direction().X(), "two-point constructor x"); sym::eq(l.Direction().Y(), w.Direction().Y(), "two-point constructor y"); }
static const double RR[] = {0, 0.5, -1, 3, 1, -0.25};
CASEN(lineint, 0, 3, 5) { double s = sym::real("s", -2, 2), r = RR[n]; double q = 1 + s * s, g = 1 + r * r; P2 a = pt("a"), b = pt("b"); Line2D l(a, V2((1 - s * s) / q, 2 * s / q)), m(b, V2((1 - r * r) / g, 2 * r / g)); double c = (1 - s * s) * 2 * r - 2 * s * (1 - r * r); sym::assume((c >= 1e-2) | (c <= -1e-2)); auto R = l.Intersection(m); sym::obs("t1", R.t1); sym::check(R.IsPoint() && R.HasIntersection() && !R.IsParallel() && !R.IsCoincident(), "non-parallel lines meet in a point"); P2 x = l(R.t1), y = m(R.t2); sym::eq(R.point.X(), x.X(), "point at t1 x"); sym::eq(R.point.Y(), x.Y(), "point at t1 y"); sym::eq(R.point.X(), y.X(), "point at t2 x"); sym::eq(R.point.Y(), y.Y(), "point at t2 y"); P2 z; sym::check(l.Intersects(m, &z) && z == R.point && l.Intersects(m), "Intersects agrees"); }
CASE(linepar) { double s = sym::real("s", -2, 2), d = sym::real("d", -4, 4), k = sym::real("k", -4, 4); bool f = sym::flag("opposite"); double q = 1 + s * s, ux = (1 - s * s) / q, uy = 2 * s / q; P2 a = pt("a"); P2 b(a.X() + k * ux - d * uy, a.Y() + k * uy + d * ux); sym::assume(sep(d)); Line2D l(a, V2(ux, uy)), m(b, f ? V2(-ux, -uy) : V2(ux, uy)); auto R = l.Intersection(m); sym::obs("k", k); sym::check(R.IsCoincident() == (d == 0) && R.IsParallel() == (d != 0) && !R.HasIntersection(), "parallel or coincident"); P2 z(77, 78); sym::check(!l.Intersects(m, &z) && z == P2(77, 78), "no intersection point written"); }
CASE(seg) { P2 a = pt("a"), b = pt("b"); double t = sym::real("t", -1, 2); SegmentLine2D s(a, b); sym::obs("t", t); sym::eq(s.Length() * s.Length(), d2(a, b), "length"); sym::check(s.Length() >= 0, "length nonnegative"); sym::check(s.Midpoint() * 2 == a + P2(b.X(), b.Y()), "midpoint"); bool in = t >= 0 && t <= 1; int r = sym_throws<GeometryError>([&] { P2 p = s.PointOnSegment(t); sym::eq(p.X(), a.X() + t * (b.X() - a.X()), "point on segment x"); sym::eq(p.Y(), a.Y() + t * (b.Y() - a.Y()), "point on segment y"); }); sym::check(r == (in ? 0 : 1), "parameter outside [0,1] refused"); SegmentLine2D w(a, V2(b.X(), b.Y()), t); sym::eq(w.EndPoint().X(), a.X() + t * b.X(), "direction constructor x"); sym::eq(w.EndPoint().Y(), a.Y() + t * b.Y(), "direction constructor y"); }
CASE(segdist) { P2 a = pt("a"), b = pt("b"), p = pt("p"); double L = d2(a, b); sym::assume((L == 0) | (L > 1e-3)); SegmentLine2D s(a, b); P2 c = s.ClosestPoint(p); double D = s.DistanceToPoint(p); sym::obs("cx", c.X()); sym::check(D >= 0, "distance nonnegative"); sym::eq(D * D, d2(p, c), "distance to the closest point"); sym::eq(cr(a, b, c), 0, "closest point is on the carrier line", 1e-6); if (L == 0) { sym::check(c == a, "degenerate segment"); return; } double ta = dt(a, b, p), tb = dt(b, a, p); if (ta <= 0) { sym::eq(c.X(), a.X(), "before the start x"); sym::eq(c.Y(), a.Y(), "before the start y"); } else if (tb <= 0) { sym::eq(c.X(), b.X(), "behind the end x"); sym::eq(c.Y(), b.Y(), "behind the end y"); } else sym::eq((c.X() - p.X()) * (b.X() - a.X()) + (c.Y() - p.Y()) * (b.Y() - a.Y()), 0, "foot of the perpendicular"); }
static const double DB[][2] = {{1, 0}, {2, 1}, {0, 1}, {-1, 2}, {-1, -1}}, DW[][2] = {{0, 1}, {-1, 1}, {3, 1}, {1, 1}, {1, -2}};
CASEN(segcross, 0, 4, 4) { P2 a = pt("a", -4, 4); double l = sym::real("l", 0.5, 2), t = sym::real("t", -2, 3), p = sym::real("p", -3, 3), q = sym::real("q", -3, 3); V2 B(DB[n][0] * l, DB[n][1] * l), W(DW[n][0], DW[n][1]); P2 b(a.X() + B.X(), a.Y() + B.Y()), x(a.X() + t * B.X(), a.Y() + t * B.Y()), c(x.X() + p * W.X(), x.Y() + p * W.Y()), d(x.X() + q * W.X(), x.Y() + q * W.Y()); sym::assume(sep(t) & sep(t - 1) & sep(p) & sep(q)); sym::assume((p - q >= 1e-2) | (p - q <= -1e-2)); SegmentLine2D s(a, b), u(c, d); auto R = s.Intersection(u); bool want = t >= 0 && t <= 1 && ((p <= 0 && q >= 0) || (p >= 0 && q <= 0)); sym::obs("t", t); sym::check(R.HasIntersection() == want, "intersects iff each segment straddles the other"); sym::check(s.Intersects(u) == want && u.Intersects(s) == want, "Intersects agrees in both orders"); if (want) { sym::check(R.IsPointIntersection(), "transversal intersection is a point"); sym::eq(R.point.X(), x.X(), "common point x", 1e-5); sym::eq(R.point.Y(), x.Y(), "common point y", 1e-5); } }
CASEN(segcol, 0, 3, 3) { double t = sym::real("t", -3, 3), r = sym::real("r", -3, 3); P2 a = pt("a", -4, 4), b; double dx = n == 1 ? 0 : sym::real("dx", 0.5, 2), dy = n == 2 ? 0 : sym::real("dy", 0.5, 2); if (n == 3) dx = -dx; b = P2(a.X() + dx, a.Y() + dy); P2 c(a.X() + t * dx, a.Y() + t * dy), d(a.X() + r * dx, a.Y() + r * dy); sym::assume(sep(t) & sep(t - 1) & sep(r) & sep(r - 1) & sep(t - r)); SegmentLine2D s(a, b), u(c, d); auto R = s.Intersection(u); double lo = t < r ? t : r, hi = t < r ? r : t, l = lo > 0 ? lo : 0.0, h = hi < 1 ? hi : 1.0; sym::obs("t", t); sym::check(R.HasIntersection() == (l <= h), "collinear segments meet iff their parameter ranges do"); sym::check(R.IsOverlap() == (l < h), "overlap of positive length"); if (l < h) { sym::eq(R.overlapStart.X(), a.X() + l * dx, "overlap start x"); sym::eq(R.overlapStart.Y(), a.Y() + l * dy, "overlap start y"); sym::eq(R.overlapEnd.X(), a.X() + h * dx, "overlap end x"); sym::eq(R.overlapEnd.Y(), a.Y() + h * dy, "overlap end y"); } else if (l == h) { sym::eq(R.point.X(), a.X() + l * dx, "common end x"); sym::eq(R.point.Y(), a.Y() + l * dy, "common end y"); } }
CASEN(segdeg, 0, 4, 4) { P2 a = pt("a", -4, 4); double l = sym::real("l", 0.5, 2), t = sym::real("t", -2, 3), q = sym::real("q", -3, 3); V2 B(DB[n][0] * l, DB[n][1] * l); P2 b(a.X() + B.X(), a.Y() + B.Y()), p(a.X() + t * B.X() + q * DW[n][0], a.Y() + t * B.Y() + q * DW[n][1]); sym::assume(sep(t) & sep(t - 1) & sep(q)); SegmentLine2D s(a, b), u(p, p); sym::obs("t", t); bool want = q == 0 && t >= 0 && t <= 1; sym::check(s.Intersection(u).HasIntersection() == want, "segment against a point"); sym::check(u.Intersection(s).HasIntersection() == want, "point against a segment"); }
CASE(circle) { P2 c = pt("c"), p = pt("p"); double r = sym::real("r", 0, 8); Circle2D k(c, r); double d = k.DistanceFromCenter(p), th = sym::real("th", -3, 3); sym::obs("d", d); sym::eq(d * d, d2(c, p), "distance from the centre"); sym::eq(k.SignedDistance(p), d - r, "signed distance"); sym::eq(k.DistanceToPoint(p), d > r ? d - r : r - d, "distance to the circle"); sym::check(k.Contains(p, 0) == (d <= r), "contains"); sym::check(k.IsOnBoundary(p, 0.25) == (d - r < 0.25 && r - d < 0.25), "boundary"); P2 q = k.PointAt(th); sym::eq(d2(q, c), r * r, "PointAt is on the circle"); V2 t = k.TangentAt(th); sym::eq(t.X() * (q.X() - c.X()) + t.Y() * (q.Y() - c.Y()), 0, "tangent is perpendicular to the radius"); auto b = k.GetBoundingBox(); sym::check(b.minX == c.X() - r && b.maxX == c.X() + r && b.minY == c.Y() - r && b.maxY == c.Y() + r, "bounding box"); sym::eq(k.Area() * 2, r * k.Circumference(), "area and circumference"); }
CASE(circlecl) { P2 c = pt("c"), p = pt("p"); double r = sym::real("r", 0, 8), D = d2(c, p); sym::assume((D == 0) | (D > 0.01)); Circle2D k(c, r); P2 q = k.ClosestPoint(p); sym::obs("qx", q.X()); sym::eq(d2(q, c), r * r, "closest point is on the circle"); sym::eq(cr(c, p, q), 0, "on the ray through the point", 1e-6); sym::check(dt(c, p, q) >= -1e-9, "on the side of the point"); }
CASE(circles) { P2 a = pt("a"), b = pt("b"); double r = sym::real("r", 0, 8), s = sym::real("s", 0, 8), D = d2(a, b); Circle2D k(a, r), m(b, s); sym::obs("r", r); bool w = D <= (r + s) * (r + s) && D >= (r - s) * (r - s); sym::check(k.Intersects(m) == w && m.Intersects(k) == w, "circles meet iff |r-s| <= d <= r+s"); }
CASE(circleline) { P2 c = pt("c"), a = pt("a"); double r = sym::real("r", 0, 8), s = sym::real("s", -2, 2), q = 1 + s * s; Circle2D k(c, r); Line2D l(a, V2((1 - s * s) / q, 2 * s / q)); double h = ((c.X() - a.X()) * 2 * s - (c.Y() - a.Y()) * (1 - s * s)) / q; sym::obs("r", r); sym::check(k.Intersects(l) == (h * h <= r * r), "line meets the disc iff its distance is at most r"); }
CASE(circlemk) { P2 a = pt("a"), b = pt("b"); double r = sym::real("r", -8, 8), f = sym::real("f", -2, 2); Circle2D k = Circle2D::FromDiameter(a, b); sym::obs("r", r); sym::eq(d2(k.Center(), a), k.Radius() * k.Radius(), "FromDiameter first"); sym::eq(d2(k.Center(), b), k.Radius() * k.Radius(), "FromDiameter second"); sym::eq(k.Diameter() * k.Diameter(), d2(a, b), "FromDiameter diameter"); sym::check(sym_throws<GeometryError>([&] { Circle2D q(a, r); }) == (r < 0 ? 1 : 0) && sym_throws<GeometryError>([&] { Circle2D q(a.X(), a.Y(), r); }) == (r < 0 ? 1 : 0), "negative radius refused"); sym::check(sym_throws<GeometryError>([&] { Circle2D q = k.Scaled(f); sym::eq(q.Radius(), f * k.Radius(), "Scaled"); }) == (f > 0 ? 0 : 1), "non-positive factor refused"); Circle2D t = k.Translated(V2(r, f)); sym::check(t.Center() == P2(k.Center().X() + r, k.Center().Y() + f) && t.Radius() == k.Radius(), "Translated"); }
CASE(circle3) { P2 a = pt("a", -4, 4), b = pt("b", -4, 4), c = pt("c", -4, 4); double e = cr(a, b, c); sym::assume((e > 0.5) | (e < -0.5)); Triangle2D t(a, b, c); P2 o = t.Circumcenter(); sym::obs("ox", o.X()); sym::eq(d2(o, a), d2(o, b), "circumcentre equidistant ab", 1e-6); sym::eq(d2(o, b), d2(o, c), "circumcentre equidistant bc", 1e-6); }
CASE(box) { P2 a = pt("a"), b = pt("b"), p = pt("p"); Box2D x(a, b); double e = 0; sym::obs("ax", a.X()); double lx = a.X() < b.X() ? a.X() : b.X(), hx = a.X() < b.X() ? b.X() : a.X(), ly = a.Y() < b.Y() ? a.Y() : b.Y(), hy = a.Y() < b.Y() ? b.Y() : a.Y(); sym::check(x.MinX() == lx && x.MaxX() == hx && x.MinY() == ly && x.MaxY() == hy, "normalised corners"); bool in = p.X() >= lx && p.X() <= hx && p.Y() >= ly && p.Y() <= hy; sym::check(x.Contains(p, e) == in, "contains"); P2 c = x.ClosestPoint(p); sym::check(x.Contains(c, e), "closest point inside"); double D = x.DistanceToPoint(p); sym::eq(D * D, d2(c, p), "distance to the closest point"); sym::check(D >= 0 && (D == 0) == in, "zero distance iff inside"); sym::eq(x.Area(), (hx - lx) * (hy - ly), "area"); sym::eq(x.Perimeter(), 2 * (hx - lx + hy - ly), "perimeter"); sym::check(x.Center() * 2 == P2(lx + hx, ly + hy), "centre"); }
CASE(boxclose) { P2 a = pt("a"), b = pt("b"), p = pt("p"), q = pt("q"); Box2D x(a, b); sym::assume(x.Contains(q, 0)); P2 c = x.ClosestPoint(p); sym::obs("cx", c.X()); sym::check(d2(c, p) <= d2(q, p), "no point of the box is closer"); }
CASE(boxes) { P2 a = pt("a"), b = pt("b"), c = pt("c"), d = pt("d"), p = pt("p"); sym::assume((a.X() <= b.X()) & (a.Y() <= b.Y()) & (c.X() <= d.X()) & (c.Y() <= d.Y())); Box2D x(a, b), y(c, d); bool i = x.Intersects(y); sym::obs("ax", a.X()); bool inx = x.Contains(p, 0), iny = y.Contains(p, 0); if (inx && iny) sym::check(i, "common point implies intersection"); if (i) { Box2D z = x.Intersection(y); sym::check(z.Contains(p, 0) == (inx && iny), "intersection is the set of common points"); sym::check(x.Contains(z, 0) && y.Contains(z, 0), "intersection inside both"); } Box2D u = x.Union(y); sym::check(u.Contains(x, 0) && u.Contains(y, 0), "union contains both"); if (inx || iny) sym::check(u.Contains(p, 0), "union contains every point"); sym::check(u.MinX() == x.MinX() || u.MinX() == y.MinX(), "union is tight"); sym::check(y.Intersects(x) == i, "symmetric"); }
CASE(boxmisc) { P2 a = pt("a"), b = pt("b"), p = pt("p"), q = pt("q"); double m = sym::real("m", 0, 4), f = sym::real("f", 0, 4); sym::assume((a.X() <= b.X()) & (a.Y() <= b.Y())); Box2D x(a, b), y = x; y.ExpandToInclude(p); sym::obs("ax", a.X()); sym::check(y.Contains(p, 0) && y.Contains(x, 0), "ExpandToInclude"); if (x.Contains(p, 0)) sym::check(y.Min() == x.Min() && y.Max() == x.Max(), "unchanged when inside"); Box2D e = x.Expanded(m); sym::check(e.MinX() == x.MinX() - m && e.MaxX() == x.MaxX() + m && e.MinY() == x.MinY() - m && e.MaxY() == x.MaxY() + m, "Expanded"); Box2D s = x.Scaled(f); sym::eq(s.Width(), f * x.Width(), "Scaled width"); sym::eq(s.Height(), f * x.Height(), "Scaled height"); sym::check(s.Center() == x.Center(), "Scaled keeps the centre"); Box2D c = Box2D::FromCenterAndSize(p, m, f); sym::check(c.Center() == p, "FromCenterAndSize centre"); sym::eq(c.Width(), m, "FromCenterAndSize width"); sym::eq(c.Height(), f, "FromCenterAndSize height"); std::vector<P2> v{p, q, a}; Box2D h = Box2D::FromPoints(v); for (auto &z : v) sym::check(h.Contains(z, 0), "FromPoints contains all"); sym::check(h.MinX() == a.X() || h.MinX() == p.X() || h.MinX() == q.X(), "FromPoints tight"); sym::check(THROWS(GeometryError, Box2D::FromPoints({})), "no points"); }
CASE(boxcircle) { P2 a = pt("a"), b = pt("b"), c = pt("c"); double r = sym::real("r", 0, 8); Box2D x(a, b); Circle2D k(c, r); double D = d2(x.ClosestPoint(c), c); sym::obs("r", r); sym::check(x.Intersects(k) == (D <= r * r), "box meets the disc iff its closest point is in it"); }
