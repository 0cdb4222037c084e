// BOUNDS: all triangles with coordinates in [-8,8] and doubled area at least 0.25; all polygons of 3 to 5 vertices with coordinates in [-4,4] (convexity and simplicity: first edge fixed, which loses nothing up to an affine map); triangle angles for four ratios of two sides and every included angle and scale; shape parameters in [0.1,8]; regular polygons of 3 to 8 sides; decisions on separations of zero or at least 1e-3
// OUTSIDE: rounding (Heron's formula on nearly flat triangles), points exactly on polygon edges for the ray-casting tests, inverse trigonometric values beyond their defining identities
#include "h.h"
#include "mml/base/Geometry/Geometry.h"
#include "mml/base/Geometry/Geometry2D.h"
typedef Point2Cartesian P2; typedef Vector2Cartesian V2;
static P2 pt(const char *n, double lo = -8, double hi = 8) { double x = sym::real(n, 0, lo, hi), y = sym::real(n, 1, lo, hi); return P2(x, y); }
static double cr(P2 o, P2 a, P2 b) { return (a.X() - o.X()) * (b.Y() - o.Y()) - (a.Y() - o.Y()) * (b.X() - o.X()); }
static double dt(P2 o, P2 a, P2 b) { return (a.X() - o.X()) * (b.X() - o.X()) + (a.Y() - o.Y()) * (b.Y() - o.Y()); }
static double d2(P2 a, P2 b) { return (a.X() - b.X()) * (a.X() - b.X()) + (a.Y() - b.Y()) * (a.Y() - b.Y()); }
CASE(tri) { P2 a = pt("a"), b = pt("b"), c = pt("c"); double D = cr(a, b, c); sym::assume(far(D, 0.25)); Triangle2D t(a, b, c); sym::obs("A", t.A()); sym::eq(t.A() * t.A(), d2(a, b), "side A is P1P2"); sym::eq(t.B() * t.B(), d2(b, c), "side B is P2P3"); sym::eq(t.C() * t.C(), d2(c, a), "side C is P3P1"); sym::eq(t.Perimeter(), t.A() + t.B() + t.C(), "perimeter"); sym::eq(t.SignedArea() * 2, D, "signed area"); double H = t.Area(); sym::eq(4 * H * H, D * D, "Heron area", 1e-5); sym::check(t.IsCounterClockwise() == (D > 0) && t.IsClockwise() == (D < 0), "orientation"); P2 g = t.Centroid(); sym::eq(3 * g.X(), a.X() + b.X() + c.X(), "centroid x"); sym::eq(3 * g.Y(), a.Y() + b.Y() + c.Y(), "centroid y"); }
CASE(tricache) { P2 a = pt("a"), b = pt("b"), c = pt("c"), d = pt("d"); Triangle2D t(a, b, c); sym::obs("A", t.A()); t.Pnt1() = d; Triangle2D u(d, b, c); sym::check(t.A() == u.A() && t.B() == u.B() && t.C() == u.C(), "sides follow a changed first point"); t.Pnt2() = a; Triangle2D v(d, a, c); sym::check(t.A() == v.A() && t.B() == v.B() && t.C() == v.C(), "sides follow a changed second point"); t.Pnt3() = b; Triangle2D w(d, a, b); sym::check(t.A() == w.A() && t.B() == w.B() && t.C() == w.C(), "sides follow a changed third point"); }
CASE(trirad) { P2 a(0, 0), b = pt("b", -4, 4), c = pt("c", -4, 4); double D = cr(a, b, c); sym::assume(far(D, 0.25)); Triangle2D t(a, b, c); P2 o = t.Circumcenter(); double R = t.CircumRadius(); sym::obs("R", R); sym::check(R >= 0, "circumradius nonnegative"); sym::eq(R * R * 4 * D * D, d2(a, b) * d2(b, c) * d2(c, a), "circumradius", 1e-4); sym::eq(d2(o, a) * 4 * D * D, d2(a, b) * d2(b, c) * d2(c, a), "circumcentre distance", 1e-4); double r = t.InRadius(); sym::eq(r * t.Perimeter(), 2 * t.Area(), "inradius"); P2 i = t.Incenter(); double P = t.Perimeter(); sym::eq(cr(a, b, i) * P, D * t.A(), "incentre distance to AB", 1e-5); sym::eq(cr(b, c, i) * P, D * t.B(), "incentre distance to BC", 1e-5); sym::eq(cr(c, a, i) * P, D * t.C(), "incentre distance to CA", 1e-5); }
static const double RQ[] = {1, 0.5, 2, 3};
CASEN(triang, 0, 3, 3) { P2 a = pt("a"); double k = sym::real("k", 0.5, 2), s = sym::real("s", 0.1, 3), q = 1 + s * s; P2 b(a.X() + k, a.Y()), c(a.X() + k * RQ[n] * (1 - s * s) / q, a.Y() + k * RQ[n] * 2 * s / q); Triangle2D t(a, b, c); double A = std::cos(t.AngleA()), B = std::cos(t.AngleB()), C = std::cos(t.AngleC()); sym::obs("x", a.X()); sym::eq(A * t.B() * t.C(), dt(c, a, b), "angle opposite side A", 1e-6); sym::eq(B * t.A() * t.C(), dt(a, b, c), "angle opposite side B", 1e-6); sym::eq(C * t.A() * t.B(), dt(b, a, c), "angle opposite side C", 1e-6); }
CASE(tricont) { P2 a = pt("a"), b = pt("b"), c = pt("c"); double u = sym::real("u", -2, 2), v = sym::real("v", -2, 2), w = 1 - u - v; sym::assume(far(cr(a, b, c), 0.25)); sym::assume(sep(u) & sep(v) & sep(w)); P2 p(u * a.X() + v * b.X() + w * c.X(), u * a.Y() + v * b.Y() + w * c.Y()); Triangle2D t(a, b, c); sym::obs("u", u); sym::check(t.Contains(p) == (u >= 0 && v >= 0 && w >= 0), "contains iff all barycentric coordinates are nonnegative"); }
CASE(trikind) { P2 a = pt("a"), b(a.X() + 2, a.Y() + 1), c = pt("c"); double p = dt(a, b, c), q = dt(b, a, c), r = dt(c, a, b); sym::assume(sep(p) & sep(q) & sep(r)); Triangle2D t(a, b, c); sym::obs("p", p); sym::check(t.IsRight() == (p == 0 || q == 0 || r == 0), "right angle"); }
CASE(trikind2) { P2 a(0, 0), b(2, 0), c = pt("c"); Triangle2D t(a, b, c); double A = 4, B = d2(b, c), C = d2(c, a); sym::obs("x", c.X()); sym::assume((A == B) | far(A - B)); sym::assume((A == C) | far(A - C)); sym::assume((B == C) | far(B - C)); sym::check(t.IsIsosceles() == (A == B || B == C || A == C), "isosceles"); sym::check(t.IsEquilateral() == (A == B && A == C), "equilateral"); }
CASE(triflat) { P2 a = pt("a", -4, 4), p = pt("p", -8, 8); double dx = sym::real("dx", 0.5, 2), dy = sym::real("dy", -2, 2), t = sym::real("t", -2, 2); P2 b(a.X() + dx, a.Y() + dy), c(a.X() + t * dx, a.Y() + t * dy); Triangle2D f(a, b, c); sym::obs("t", t); sym::check(THROWS(GeometryError, f.Circumcenter()), "flat triangle has no circumcentre"); sym::check(!f.Contains(p), "flat triangle contains nothing"); sym::eq(f.SignedArea(), 0, "flat triangle has no area"); sym::check(!f.IsClockwise() || f.SignedArea() < 0, "orientation"); }
static Polygon2D poly(int n, double lo = -4, double hi = 4) { std::vector<P2> v; for (int i = 0; i < n; i++) { double x = sym::real("x", i, lo, hi), y = sym::real("y", i, lo, hi); v.push_back(P2(x, y)); } return Polygon2D(v); }
CASEN(parea, 0, 5, 6) { Polygon2D p = poly(n); double s = 0; for (int i = 0; i + 2 < n; i++) s += cr(p[0], p[i + 1], p[i + 2]); sym::obs("area", p.Area()); sym::eq(p.SignedArea() * 2, s, "signed area is the sum over a fan"); sym::check(p.Area() >= 0 && p.IsCounterClockwise() == (p.SignedArea() > 0) && p.IsClockwise() == (p.SignedArea() < 0), "orientation"); sym::check(p.Area() == p.SignedArea() || p.Area() == -p.SignedArea(), "area"); double a = p.SignedArea(); Polygon2D q = p; q.Reverse(); sym::eq(q.SignedArea(), -a, "reversal flips the sign"); double per = 0; for (int i = 0; i < n; i++) per += std::sqrt(d2(p[i], p[(i + 1) % n])); if (n >= 2) sym::eq(p.Perimeter(), per, "perimeter"); else sym::eq(p.Perimeter(), 0, "perimeter of nothing"); }
CASEN(pcent, 3, 4, 5) { Polygon2D p = poly(n); double S = 0, X = 0, Y = 0; for (int i = 0; i + 2 < n; i++) { double d = cr(p[0], p[i + 1], p[i + 2]); S += d; X += d * (p[0].X() + p[i + 1].X() + p[i + 2].X()); Y += d * (p[0].Y() + p[i + 1].Y() + p[i + 2].Y()); } sym::assume(sep(S, 0.125)); sym::obs("S", S); P2 c; int r = sym_throws<GeometryError>([&] { c = p.Centroid(); }); sym::check(r == (S == 0 ? 1 : 0), "zero area refused"); if (r == 0) { sym::eq(c.X() * S * 3, X, "centroid x", 1e-4); sym::eq(c.Y() * S * 3, Y, "centroid y", 1e-4); } }
CASE(psmall) { P2 a = pt("a"), b = pt("b"); Polygon2D e, o({a}), t({a, b}); sym::obs("x", a.X()); sym::check(THROWS(GeometryError, e.Centroid()) && THROWS(GeometryError, e.GetBoundingBox()), "empty polygon refused"); sym::check(o.Centroid() == a && t.Centroid() * 2 == a + b, "centroid of one or two points"); sym::check(!e.IsConvex() && !t.IsConvex() && !t.IsSimple() && !t.Contains(a) && t.WindingNumber(a) == 0 && e.Triangularization().empty() && t.Triangularization().empty(), "fewer than three vertices"); }
CASE(pidx) { Polygon2D p = poly(3); int i = sym::integer("i", -2147483647 - 1, 2147483647); bool in = i >= 0 && i < 3; sym::obs("x", p[0].X()); sym::check(sym_throws<VectorAccessBoundsError>([&] { P2 q = p.Vertex(i); sym::check(q == p[i], "vertex"); }) == (in ? 0 : 1), "vertex index"); sym::check(sym_throws<VectorAccessBoundsError>([&] { SegmentLine2D s = p.Edge(i); sym::check(s.StartPoint() == p[i] && s.EndPoint() == p[i == 2 ? 0 : i + 1], "edge"); }) == (in ? 0 : 1), "edge index"); }
CASE(pbox) { Polygon2D p = poly(3); auto b = p.GetBoundingBox(); sym::obs("w", b.Width()); bool l = false, r = false, d = false, u = false; for (int i = 0; i < 3; i++) { sym::check(p[i].X() >= b.minX && p[i].X() <= b.maxX && p[i].Y() >= b.minY && p[i].Y() <= b.maxY, "contains every vertex"); l |= p[i].X() == b.minX; r |= p[i].X() == b.maxX; d |= p[i].Y() == b.minY; u |= p[i].Y() == b.maxY; } sym::check(l & r & d & u, "tight"); sym::check(b.Center() * 2 == P2(b.minX + b.maxX, b.minY + b.maxY) && b.Height() == b.maxY - b.minY, "centre and height"); }
CASE(pin3) { P2 a = pt("a"), b = pt("b"), c = pt("c"); double u = sym::real("u", -2, 2), v = sym::real("v", -2, 2), w = 1 - u - v, D = cr(a, b, c); sym::assume(far(D, 0.25)); sym::assume(far(u) & far(v) & far(w)); P2 p(u * a.X() + v * b.X() + w * c.X(), u * a.Y() + v * b.Y() + w * c.Y()); Polygon2D t({a, b, c}); bool in = u > 0 && v > 0 && w > 0; sym::obs("u", u); sym::check(t.WindingNumber(p) == (in ? (D > 0 ? 1 : -1) : 0), "winding number of a triangle"); sym::check(t.Contains(p) == in, "ray casting agrees with barycentric coordinates"); }
CASEN(pwind, 3, 4, 5) { Polygon2D p = poly(n); P2 q(0, 0); for (int i = 0; i < n; i++) { P2 a = p[i], b = p[(i + 1) % n]; sym::assume(far(cr(a, b, q))); } int w = p.WindingNumber(q); sym::obs("x", p[0].X()); sym::check(p.Contains(q) == (w == 1 || w == -1), "ray casting is the parity of the winding number"); Polygon2D r = p; r.Reverse(); sym::check(r.WindingNumber(q) == -w, "reversal negates the winding number"); sym::check(r.Contains(q) == p.Contains(q), "containment independent of orientation"); }
CASEN(pconv, 3, 4, 5) { Polygon2D p = poly(n); p[0] = P2(0, 0); p[1] = P2(2, 1); bool pos = false, neg = false; for (int i = 0; i < n; i++) { double c = cr(p[i], p[(i + 1) % n], p[(i + 2) % n]); sym::assume(sep(c)); pos |= c > 0; neg |= c < 0; } sym::obs("x", p[0].X()); sym::check(p.IsConvex() == !(pos & neg), "convex iff all turns have one sign"); }
CASE(psimple) { Polygon2D p = poly(4); p[0] = P2(0, 0); p[1] = P2(2, 1); bool x = false; for (int i = 0; i < 2; i++) { double a = cr(p[i], p[i + 1], p[i + 2]), b = cr(p[i], p[i + 1], p[(i + 3) % 4]), c = cr(p[i + 2], p[(i + 3) % 4], p[i]), d = cr(p[i + 2], p[(i + 3) % 4], p[i + 1]); x |= ((a > 0) & (b < 0) | (a < 0) & (b > 0)) & ((c > 0) & (d < 0) | (c < 0) & (d > 0)); } sym::obs("x", p[0].X()); sym::check(p.IsSimple() == !x, "simple iff no two opposite edges cross"); }
CASE(psimple3) { Polygon2D p = poly(3); sym::obs("x", p[0].X()); sym::check(p.IsSimple(), "triangles are simple"); }
CASEN(pfan, 3, 5, 6) { Polygon2D p = poly(n); auto t = p.Triangularization(); sym::obs("x", p[0].X()); sym::check((int)t.size() == n - 2, "n-2 triangles"); double s = 0; for (auto &q : t) s += q.SignedArea(); sym::eq(s, p.SignedArea(), "areas add up"); }
CASE(shtri) { double a = sym::real("a", -8, 8), b = sym::real("b", -8, 8), c = sym::real("c", -8, 8); Triangle t(a, b, c); bool ok = a > 0 && b > 0 && c > 0 && a + b > c && a + c > b && b + c > a; sym::obs("a", a); sym::check(t.IsValid() == ok, "triangle inequality"); sym::eq(t.Perimeter(), a + b + c, "perimeter"); }
CASE(shtri1) { double X = sym::real("x", 0.05, 4), Y = sym::real("y", 0.05, 4), Z = sym::real("z", 0.05, 4), a = Y + Z, b = X + Z, c = X + Y; Triangle t(a, b, c); sym::obs("a", a); sym::check(t.IsValid(), "valid"); sym::eq(2 * t.Semiperimeter(), a + b + c, "semiperimeter"); double S = t.Area(); sym::eq(16 * S * S, (a + b + c) * (a + b - c) * (a + c - b) * (b + c - a), "Heron"); sym::eq(t.AltitudeToA() * a, 2 * S, "altitude a"); sym::eq(t.AltitudeToB() * b, 2 * S, "altitude b"); sym::eq(t.AltitudeToC() * c, 2 * S, "altitude c"); sym::eq(4 * t.MedianToA() * t.MedianToA(), 2 * b * b + 2 * c * c - a * a, "median a"); sym::eq(4 * t.MedianToB() * t.MedianToB(), 2 * a * a + 2 * c * c - b * b, "median b"); sym::eq(4 * t.MedianToC() * t.MedianToC(), 2 * b * b + 2 * a * a - c * c, "median c"); sym::eq(t.Inradius() * t.Semiperimeter(), S, "inradius"); sym::eq(t.Circumradius() * 4 * S, a * b * c, "circumradius"); sym::eq(Circle::Inscribed(t).Radius(), t.Inradius(), "inscribed circle"); sym::eq(Circle::Circumscribed(t).Radius(), t.Circumradius(), "circumscribed circle"); }
CASE(shtri2) { double X = sym::real("x", 0.05, 4), Y = sym::real("y", 0.05, 4), Z = sym::real("z", 0.05, 4), a = Y + Z, b = X + Z, c = X + Y; Triangle t(a, b, c); double x = b * b + c * c - a * a, y = a * a + c * c - b * b, z = a * a + b * b - c * c; sym::obs("a", a); sym::eq(std::cos(t.AngleA()) * 2 * b * c, x, "law of cosines A"); sym::eq(std::cos(t.AngleB()) * 2 * a * c, y, "law of cosines B"); sym::eq(std::cos(t.AngleC()) * 2 * a * b, z, "law of cosines C"); }
CASE(shtri3) { double a = sym::real("a", 0.1, 8), b = sym::real("b", 0.1, 8), c = sym::real("c", 0.1, 8); Triangle t(a, b, c); double x = b * b + c * c - a * a, y = a * a + c * c - b * b, z = a * a + b * b - c * c; sym::obs("a", a); sym::check(t.IsAcute() == (x > 0 && y > 0 && z > 0), "acute"); sym::check(t.IsObtuse() == (x < 0 || y < 0 || z < 0), "obtuse"); sym::check(t.IsRight(1e-3) == (x < 1e-3 && x > -1e-3 || y < 1e-3 && y > -1e-3 || z < 1e-3 && z > -1e-3), "right"); }
CASE(shtri4) { double a = sym::real("a", 0.1, 8), b = sym::real("b", 0.1, 8), c = sym::real("c", 0.1, 8); Triangle t(a, b, c); sym::obs("a", a); sym::assume(sep(a - b) & sep(b - c) & sep(a - c)); sym::check(t.IsIsosceles() == (a == b || b == c || a == c) && t.IsEquilateral() == (a == b && b == c) && t.IsScalene() == (a != b && b != c && a != c), "isosceles, equilateral, scalene"); }
CASE(shcirc) { double r = sym::real("r", 0.1, 8), f = sym::real("f", 0, 3), s = sym::real("s", 0.1, 8); sym::obs("r", r); symrt_angle(f, 2); Circle c(r); sym::eq(Circle::FromArea(c.Area()).Radius(), r, "FromArea round trip"); sym::eq(Circle::FromCircumference(c.Circumference()).Radius(), r, "FromCircumference round trip"); sym::eq(2 * c.Area(), r * c.Perimeter(), "area and perimeter"); sym::eq(c.SectorArea(f) * 2, r * c.ArcLength(f), "sector"); CircularSector q(r, f); CircularSegment g(r, f); sym::eq(q.Area() - 0.5 * r * r * std::sin(f), g.Area(), "segment is sector minus triangle"); sym::eq(c.SegmentArea(f), g.Area(), "segment area"); sym::eq(q.Area(), c.SectorArea(f), "sector area"); sym::eq(q.Perimeter(), 2 * r + c.ArcLength(f), "sector perimeter"); double ch = c.ChordLength(f); sym::eq(ch * ch, 2 * r * r * (1 - std::cos(f)), "chord"); sym::eq(q.ChordLength(), ch, "sector chord"); sym::eq(g.ChordLength(), ch, "segment chord"); sym::eq(g.Perimeter(), ch + g.ArcLength(), "segment perimeter"); double h = g.Sagitta(); sym::eq(2 * r * h, ch * ch / 4 + h * h, "sagitta (intersecting chords)"); Annulus a(r, r + s); sym::eq(a.Area(), a.OuterCircle().Area() - a.InnerCircle().Area(), "annulus area"); sym::eq(a.Area(), a.Width() * a.MeanCircumference(), "annulus mean circumference"); sym::eq(a.InnerCircumference() + a.OuterCircumference(), 2 * a.MeanCircumference(), "annulus circumferences"); }
CASE(shsag) { double r = sym::real("r", 0.1, 8), k = sym::real("k", 0, 1); sym::obs("r", r); CircularSegment g = CircularSegment::FromSagitta(r, k * r); sym::eq(g.Sagitta(), k * r, "FromSagitta round trip"); sym::check(g.Angle() >= 0, "angle nonnegative"); }
CASE(shell) { double a = sym::real("a", 0.5, 8), b = sym::real("b", 0.1, 8); sym::assume(b <= a); Ellipse e(a, b); double x = e.Eccentricity(), c = e.LinearEccentricity(); sym::obs("x", x); sym::eq(x * x, 1 - b * b / (a * a), "eccentricity"); sym::eq(c * c, a * a - b * b, "linear eccentricity"); sym::eq(x * a, c, "c = e a"); sym::eq(e.SemiLatusRectum() * a, b * b, "semi-latus rectum"); sym::eq(e.FocalDistance(), 2 * c, "focal distance"); Ellipse f = Ellipse::FromFoci(e.FocalDistance(), e.MajorAxis()); sym::eq(f.SemiMajor(), a, "FromFoci major"); sym::eq(f.SemiMinor(), b, "FromFoci minor"); Ellipse o(a, a); sym::eq(o.Perimeter(), Circle(a).Perimeter(), "circle perimeter"); sym::eq(o.Area(), Circle(a).Area(), "circle area"); sym::check(o.IsCircle(), "circle"); }
CASEN(shreg, 3, 8, 12) { double s = sym::real("s", 0.1, 8); RegularPolygon p(n, s); sym::obs("s", s); sym::eq(2 * p.Area(), p.Perimeter() * p.Apothem(), "area is half perimeter times apothem"); sym::eq(p.Circumradius() * p.Circumradius(), p.Apothem() * p.Apothem() + s * s / 4, "circumradius"); sym::eq(RegularPolygon::FromCircumradius(n, p.Circumradius()).SideLength(), s, "FromCircumradius"); sym::eq(RegularPolygon::FromInradius(n, p.Inradius()).SideLength(), s, "FromInradius"); sym::eq(RegularPolygon::FromArea(n, p.Area()).SideLength(), s, "FromArea"); sym::eq(p.InteriorAngle() + p.ExteriorAngle(), 3.14159265358979323846, "angles"); sym::eq(p.CentralAngle() * n, 2 * 3.14159265358979323846, "central angle"); sym::eq(p.InscribedCircle().Radius(), p.Apothem(), "incircle"); if (n == 4) { sym::eq(p.Area(), s * s, "square"); } if (n == 6) sym::eq(p.Circumradius(), s, "hexagon"); if (n == 3) sym::eq(Triangle(s, s, s).Area(), p.Area(), "equilateral triangle"); }
CASE(shpar) { double p = sym::real("p", 0.5, 8), q = sym::real("q", 0.5, 8), t = sym::real("t", 0.2, 2.9); double ct = std::cos(t); sym::assume((ct < 0.99) & (ct > -0.99)); Parallelogram g = Parallelogram::FromDiagonals(p, q, t); sym::obs("p", p); double a = g.SideA(), b = g.SideB(), P = g.DiagonalP(), Q = g.DiagonalQ(); sym::eq(P * P + Q * Q, 2 * (a * a + b * b), "parallelogram law", 1e-6); sym::eq(p * p + q * q, 2 * (a * a + b * b), "sides", 1e-6); sym::eq(P * P, p * p, "FromDiagonals first", 1e-6); sym::eq(Q * Q, q * q, "FromDiagonals second", 1e-6); }
CASE(shpar2) { double a = sym::real("a", 0.5, 8), b = sym::real("b", 0.5, 8), t = sym::real("t", 0.1, 3); Parallelogram g(a, b, t); sym::obs("a", a); sym::eq(g.HeightToA() * a, g.Area(), "height a"); sym::eq(g.HeightToB() * b, g.Area(), "height b"); sym::eq(g.AcuteAngle() + g.ObtuseAngle(), 3.14159265358979323846, "angles"); sym::check(g.AcuteAngle() <= g.ObtuseAngle() && (g.AcuteAngle() == t || g.ObtuseAngle() == t), "acute and obtuse"); sym::eq(g.Perimeter(), 2 * (a + b), "perimeter"); double P = g.DiagonalP(); sym::eq(P * P, a * a + b * b - 2 * a * b * std::cos(t), "diagonal opposite the angle"); }
CASE(shrho) { double a = sym::real("a", 0.5, 8), b = sym::real("b", 0.5, 8), t = sym::real("t", 0.1, 3); Rhombus r(a, b); sym::obs("a", a); sym::eq(4 * r.Side() * r.Side(), a * a + b * b, "side"); sym::eq(r.Area() * 2, a * b, "area"); sym::eq(r.Height() * r.Side(), r.Area(), "height"); sym::eq(r.Inradius() * 2, r.Height(), "inradius is half the height"); Rhombus s = Rhombus::FromSideAndDiagonal(r.Side(), a); sym::eq(s.Diagonal1(), a, "FromSideAndDiagonal first"); sym::eq(s.Diagonal2() * s.Diagonal2(), b * b, "FromSideAndDiagonal second"); sym::eq(r.InscribedCircle().Radius(), r.Inradius(), "incircle"); Rhombus u = Rhombus::FromSideAndAngle(a, t); sym::eq(u.Side(), a, "FromSideAndAngle side"); sym::eq(u.Area(), a * a * std::sin(t), "FromSideAndAngle area"); sym::eq(r.Perimeter(), 4 * r.Side(), "perimeter"); }
CASE(shtrap) { double a = sym::real("a", 0.1, 8), b = sym::real("b", 0.1, 8), h = sym::real("h", 0.1, 8), d = sym::real("d", 0.1, 8); Trapezoid t(a, b, h); sym::obs("a", a); sym::eq(t.Area(), t.Median() * h, "area is median times height"); sym::eq(2 * t.Median(), a + b, "median"); double l = std::sqrt(h * h + (a - b) * (a - b) / 4); sym::eq(Trapezoid::Isosceles(a, b, l).Height(), h, "Isosceles height"); Rectangle r(a, b); sym::eq(r.Diagonal() * r.Diagonal(), a * a + b * b, "diagonal"); sym::eq(r.AspectRatio() * b, a, "aspect ratio"); sym::eq(r.CircumscribedCircleRadius() * 2, r.Diagonal(), "circumcircle"); sym::eq(r.InscribedCircleRadius() * 2, a < b ? a : b, "incircle"); Rectangle q = Rectangle::FromDiagonalAndRatio(d, a); sym::eq(q.Width(), a * q.Height(), "FromDiagonalAndRatio ratio"); sym::eq(q.Width() * q.Width() + q.Height() * q.Height(), d * d, "FromDiagonalAndRatio diagonal"); sym::eq(r.Area(), a * b, "rectangle area"); sym::eq(r.Perimeter(), 2 * (a + b), "rectangle perimeter"); }
