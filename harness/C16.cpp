// BOUNDS: all positions in [-8,8]^3 and sizes in [1/16,8]; triangles over six pairs of fixed edge directions with arbitrary edge lengths (three Heronian shapes for the area), rectangles over three orthogonal frames; meshes of spheres, cylinders and tori with 3..4 divisions; separations from a boundary zero or at least 1e-3
// OUTSIDE: rounding, meshes with more divisions, SphericalGeometryCalculator angles beyond their cosine
#include "h.h"
#include <sstream>
#include "mml/base/Geometry/Geometry3D.h"
#include "mml/base/Geometry/Geometry3DBodies.h"
#include "mml/base/Geometry/GeometryCore/Geometry3DShapes.h"
#include "mml/base/Geometry/GeometrySpherical.h"
#include "mml/algorithms/CompGeometry/Intersections.h"
typedef Pnt3Cart P; typedef Vec3Cart V;
static P pt(const char *n, double lo = -8, double hi = 8) { double x = sym::real(n, 0, lo, hi), y = sym::real(n, 1, lo, hi), z = sym::real(n, 2, lo, hi); return P(x, y, z); }
static double dot(V a, V b) { return a.X() * b.X() + a.Y() * b.Y() + a.Z() * b.Z(); }
static V crs(V a, V b) { return V(a.Y() * b.Z() - a.Z() * b.Y(), a.Z() * b.X() - a.X() * b.Z(), a.X() * b.Y() - a.Y() * b.X()); }
static V df(P a, P b) { return V(b.X() - a.X(), b.Y() - a.Y(), b.Z() - a.Z()); }
static double n2(V a) { return dot(a, a); }
static void z3(V a, const char *l, double tol = 1e-6) { sym::eq(a.X(), 0, l, tol); sym::eq(a.Y(), 0, l, tol); sym::eq(a.Z(), 0, l, tol); }
static void eqP(P a, P b, const char *l, double tol = 1e-6) { z3(df(a, b), l, tol); }
static P at(P p, double t, V d) { return P(p.X() + t * d.X(), p.Y() + t * d.Y(), p.Z() + t * d.Z()); }
static V dir(int k) { static const int d[7][3] = {{0, 0, 1}, {1, 2, 2}, {-2, 6, 3}, {1, 0, 0}, {0, -4, 3}, {1, 1, -1}, {0, 0, 1}}; return V(d[k][0], d[k][1], d[k][2]); }
static V frame(int k, int i) { static const int f[3][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{1, 2, 2}, {2, 1, -2}, {-2, 2, -1}}, {{2, 3, 6}, {3, -6, 2}, {6, 2, -3}}}; return V(f[k][i][0], f[k][i][1], f[k][i][2]); }
CASEN(tri, 0, 5, 5) { P p = pt("p"); double a = sym::real("a", 0.0625, 8), b = sym::real("b", 0.0625, 8); V d = dir(n), e = dir(n + 1), c; P q = at(p, a, d), r = at(p, b, e); c = df(q, r); Triangle3D T(p, q, r); sym::eq(T.A() * T.A(), a * a * n2(d), "side A", 1e-4); sym::eq(T.B() * T.B(), n2(c), "side B", 1e-4); sym::eq(T.C() * T.C(), b * b * n2(e), "side C", 1e-4); sym::check((T.A() > 0) & (T.B() > 0) & (T.C() > 0), "sides are positive"); P g = T.Centroid(); z3(df(p, g) + df(q, g) + df(r, g), "centroid"); Plane3D E = T.getDefinedPlane(); sym::check(E.IsPointOnPlane(p) & E.IsPointOnPlane(q) & E.IsPointOnPlane(r), "vertices are on the defined plane"); sym::obs("A", T.A());
  T.Pnt2() = r; T.Pnt3() = q; sym::eq(T.C() * T.C(), a * a * n2(d), "modified triangle is not stale", 1e-4); }
CASEN(triin, 0, 5, 5) { P p = pt("p"); double a = sym::real("a", 0.0625, 8), b = sym::real("b", 0.0625, 8); V d = dir(n), e = dir(n + 1); Triangle3D T(p, at(p, a, d), at(p, b, e)); double u = sym::real("u", -2, 2), v = sym::real("v", -2, 2); sym::assume(far(u) & far(v) & far(1 - u - v)); P x = at(at(p, u * a, d), v * b, e); sym::check(T.IsPointInside(x) == ((u > 0) & (v > 0) & (u + v < 1)), "inside iff barycentric coordinates are positive"); sym::check(T.IsPointInside(p), "the first vertex belongs to the triangle"); Triangle3D Z(p, p, p); sym::check(!Z.IsPointInside(p), "degenerate triangle contains nothing"); sym::obs("x", x.X()); }
static const int HER[3][6] = {{4, 0, 0, 3, 5, 6}, {6, 0, 3, 4, 5, 12}, {14, 0, 5, 12, 13, 84}}; // (x1,y1),(x2,y2), side(1-2), area
CASEN(area, 0, 8, 8) { const int *h = HER[n % 3]; V f = frame(n / 3, 0), g = frame(n / 3, 1); double L = n2(f), k = sym::real("k", 0.0625, 4); P p = pt("p"); P q = at(at(p, k * h[0], f), k * h[1], g), r = at(at(p, k * h[2], f), k * h[3], g); Triangle3D T(p, q, r); sym::eq(T.Area(), k * k * L * h[5], "Heron area", 1e-4); bool R = n % 3 == 0, I = n % 3 == 1; sym::check(T.IsRight(1e-9) == R, "right iff Pythagoras"); sym::check(T.IsIsosceles() == I, "isosceles iff two equal sides"); sym::check(!T.IsEquilateral(), "not equilateral"); Triangle3D S(q, r, p); sym::eq(S.Area(), T.Area(), "area does not depend on the order of vertices", 1e-4); sym::obs("a", T.Area()); }
CASE(equi) { P p = pt("p"); double k = sym::real("k", 0.0625, 4); Triangle3D T(at(p, k, V(1, 0, 0)), at(p, k, V(0, 1, 0)), at(p, k, V(0, 0, 1))); sym::check(T.IsEquilateral() && T.IsIsosceles() && !T.IsRight(), "equilateral"); double A = T.Area(); sym::eq(4 * A * A, 3 * k * k * k * k, "area of an equilateral triangle", 1e-4); sym::obs("A", A); }
CASEN(trisurf, 0, 8, 8) { const int *h = HER[n % 3]; V f = frame(n / 3, 0), g = frame(n / 3, 1); double k = sym::real("k", 0.0625, 4); P p = pt("p"), v[3] = {p, at(at(p, k * h[0], f), k * h[1], g), at(at(p, k * h[2], f), k * h[3], g)}; int s = sym::pick(0, 2, "s"); bool m = sym::flag("mirror"); P a = v[s], b = v[(s + (m ? 2 : 1)) % 3], c = v[(s + (m ? 1 : 2)) % 3]; TriangleSurface3D T(a, b, c); sym::check((T.A() >= T.B() - 1e-9) & (T.A() >= T.C() - 1e-9), "the first side is the longest"); V N = crs(df(a, b), df(a, c)); z3(crs(T._normal, N), "normal is orthogonal to the triangle", 1e-3); sym::check(dot(T._normal, N) > 0, "normal keeps the orientation of the vertices"); z3(df(T.Pnt1(), T.Centroid()) + df(T.Pnt2(), T.Centroid()) + df(T.Pnt3(), T.Centroid()), "centroid"); auto pp = [&](double u, double w) { auto q = T(u, w); return P(q[0], q[1], q[2]); };
  eqP(pp(T.getMinU(), T.getMinW(0)), T.Pnt1(), "origin of the parametrisation", 1e-5); eqP(pp(T.getMaxU(), 0), T.Pnt2(), "end of the base", 1e-5); eqP(pp(T._pnt3XCoord, T._maxY), T.Pnt3(), "apex", 1e-5); double t = sym::real("t", 0.015625, 0.984375); double u = T._pnt3XCoord * t; eqP(pp(u, T.getMaxW(u)), at(T.Pnt1(), t, df(T.Pnt1(), T.Pnt3())), "upper bound follows the left edge", 1e-4); u = T._pnt3XCoord + (T._maxX - T._pnt3XCoord) * t; eqP(pp(u, T.getMaxW(u)), at(T.Pnt3(), t, df(T.Pnt3(), T.Pnt2())), "upper bound follows the right edge", 1e-4); sym::obs("x", T._localX.X()); }
CASEN(rect, 0, 2, 2) { V f = frame(n, 0), g = frame(n, 1), h = frame(n, 2); double a = sym::real("a", 0.0625, 4), b = sym::real("b", 0.0625, 4), z = sym::real("z", -4, 4); sym::assume(sep(z)); P p = pt("p"), q = at(p, a, f), s = at(p, b, g), r = at(q, b, g); int th = sym_throws<GeometryError>([&] { RectSurface3D B(p, q, at(r, z, h), s); }); sym::check(th == (z != 0 ? 1 : 0), "non-coplanar corners are refused"); RectSurface3D R(p, q, r, s); sym::eq(R.getArea(), a * b * n2(f), "area", 1e-5); z3(crs(R.getNormal(), h), "normal"); sym::eq(n2(R.getNormal()), 1, "unit normal"); sym::check(dot(R.getNormal(), crs(f, g)) > 0, "normal sense"); eqP(R.getCenter(), at(at(p, a / 2, f), b / 2, g), "center"); auto pp = [&](double u, double w) { auto q = R(u, w); return P(q[0], q[1], q[2]); }; eqP(pp(R.getMinU(), R.getMinW()), p, "first corner", 1e-5); eqP(pp(R.getMaxU(), R.getMinW()), q, "second corner", 1e-5); eqP(pp(R.getMaxU(), R.getMaxW()), r, "third corner", 1e-5); eqP(pp(R.getMinU(), R.getMaxW()), s, "fourth corner", 1e-5); sym::obs("a", R.getArea()); }
// boxes
static bool inb(P q, P a, P b) { return (q.X() >= a.X()) & (q.X() <= b.X()) & (q.Y() >= a.Y()) & (q.Y() <= b.Y()) & (q.Z() >= a.Z()) & (q.Z() <= b.Z()); }
CASE(box) { P a = pt("a"), b = pt("b"), q = pt("q"); Box3D B(a, b); sym::check((B.MinX() <= B.MaxX()) & (B.MinY() <= B.MaxY()) & (B.MinZ() <= B.MaxZ()), "normalised"); sym::eq(B.MinX() + B.MaxX(), a.X() + b.X(), "x extent"); sym::eq(B.MinY() + B.MaxY(), a.Y() + b.Y(), "y extent"); sym::eq(B.MinZ() + B.MaxZ(), a.Z() + b.Z(), "z extent"); V s = B.Size(); sym::eq(B.Volume(), s.X() * s.Y() * s.Z(), "volume"); sym::eq(B.Volume() * B.Volume(), (a.X() - b.X()) * (a.X() - b.X()) * (a.Y() - b.Y()) * (a.Y() - b.Y()) * (a.Z() - b.Z()) * (a.Z() - b.Z()), "volume from corners", 1e-3); sym::check(B.Volume() >= 0, "volume is nonnegative"); sym::eq(B.SurfaceArea(), 2 * (s.X() * s.Y() + s.Y() * s.Z() + s.X() * s.Z()), "surface area"); sym::eq(B.Diagonal() * B.Diagonal(), n2(df(a, b)), "diagonal", 1e-5); z3(df(B.Center(), a) + df(B.Center(), b), "center"); sym::obs("v", B.Volume()); }
CASE(boxpt) { P a = pt("a"), q = pt("q"); double w = sym::real("w", 0, 8), h = sym::real("h", 0, 8), e = sym::real("e", 0, 8); P b(a.X() + w, a.Y() + h, a.Z() + e); Box3D B(a, b); sym::check(B.Contains(q, 0) == inb(q, a, b), "contains iff between the corners"); P c = B.ClosestPoint(q); sym::check(inb(c, a, b), "closest point is in the box"); double D = B.DistanceToPoint(q); sym::check(D >= 0, "distance is nonnegative"); sym::eq(D * D, n2(df(c, q)), "distance is to the closest point", 1e-5); P x = pt("x"); sym::assume(inb(x, a, b)); V o = df(c, q), v = df(c, x); sym::check(dot(o, v) <= 1e-7, "no point of the box is closer"); sym::obs("D", D); }
CASE(boxhit) { P a = pt("a"), b = pt("b"); V u(sym::real("u0", 0, 8), sym::real("u1", 0, 8), sym::real("u2", 0, 8)), v(sym::real("v0", 0, 8), sym::real("v1", 0, 8), sym::real("v2", 0, 8)); P a2 = at(a, 1, u), b2 = at(b, 1, v); Box3D A(a, a2), B(b, b2); bool hit = A.Intersects(B), want = (a.X() <= b2.X()) & (b.X() <= a2.X()) & (a.Y() <= b2.Y()) & (b.Y() <= a2.Y()) & (a.Z() <= b2.Z()) & (b.Z() <= a2.Z()); sym::check(hit == want, "boxes intersect iff they overlap along every axis"); sym::check(B.Intersects(A) == want, "Intersects is symmetric"); bool c = A.Contains(B, 0); sym::check(c == ((a.X() <= b.X()) & (b2.X() <= a2.X()) & (a.Y() <= b.Y()) & (b2.Y() <= a2.Y()) & (a.Z() <= b.Z()) & (b2.Z() <= a2.Z())), "box contains box iff along every axis"); sym::obs("x", A.MinX()); }
CASEN(boxset, 0, 5, 5) { P q = pt("q"); double lo[2][3], hi[2][3]; for (int k = 0; k < 3; k++) { int m = (k + n) % 3; lo[0][m] = sym::real("a", k, -8, 8); hi[0][m] = lo[0][m] + sym::real("u", k, 0, 8); if (k == 0) { lo[1][m] = sym::real("b", -8, 8); hi[1][m] = lo[1][m] + sym::real("v", 0, 8); } else { bool o = (k == 1) == (n < 3); lo[1][m] = lo[0][m] - (o ? 1 : -0.0625); hi[1][m] = o ? hi[0][m] + 1 : lo[1][m] + 8; } }
  P a(lo[0][0], lo[0][1], lo[0][2]), a2(hi[0][0], hi[0][1], hi[0][2]), b(lo[1][0], lo[1][1], lo[1][2]), b2(hi[1][0], hi[1][1], hi[1][2]); Box3D A(a, a2), B(b, b2), I = A.Intersection(B), U = A.Union(B); bool hit = A.Intersects(B), both = inb(q, a, a2) & inb(q, b, b2); if (hit) { sym::check(I.Contains(q, 0) == both, "intersection contains exactly the common points"); sym::check(A.Contains(I, 0) && B.Contains(I, 0), "intersection is in both"); } else { sym::check(!both, "boxes with a common point intersect"); sym::eq(I.Volume(), 0, "empty intersection has no volume"); } sym::check(U.Contains(A, 0) && U.Contains(B, 0), "union contains both"); auto mn = [](double x, double y) { return x < y ? x : y; }; eqP(U.Min(), P(mn(a.X(), b.X()), mn(a.Y(), b.Y()), mn(a.Z(), b.Z())), "union is the smallest box"); eqP(U.Max(), P(-mn(-a2.X(), -b2.X()), -mn(-a2.Y(), -b2.Y()), -mn(-a2.Z(), -b2.Z())), "union is the smallest box"); sym::obs("I", I.MinX()); }
CASE(boxmod) { P a = pt("a"), q = pt("q"); V u(sym::real("u0", 0, 8), sym::real("u1", 0, 8), sym::real("u2", 0, 8)); P b = at(a, 1, u); Box3D B(a, b), E = B; E.ExpandToInclude(q); sym::check(E.Contains(q, 0) && E.Contains(B, 0), "expanded box includes the point and the old box"); P x = pt("x"); bool in = inb(x, P(std::min(a.X(), q.X()), std::min(a.Y(), q.Y()), std::min(a.Z(), q.Z())), P(std::max(b.X(), q.X()), std::max(b.Y(), q.Y()), std::max(b.Z(), q.Z()))); sym::check(E.Contains(x, 0) == in, "expanded box is minimal"); double m = sym::real("m", 0, 4); Box3D G = B.Expanded(m); eqP(G.Min(), P(a.X() - m, a.Y() - m, a.Z() - m), "expanded by a margin"); eqP(G.Max(), P(b.X() + m, b.Y() + m, b.Z() + m), "expanded by a margin"); V t(m, -m, 1); Box3D T = B.Translated(t); eqP(T.Min(), at(a, 1, t), "translated"); eqP(T.Max(), at(b, 1, t), "translated"); Box3D S = B.Scaled(m); eqP(S.Center(), B.Center(), "scaled about the center"); eqP(S.Max(), at(B.Center(), m / 2, u), "scaled");
  auto C = B.Corners(); sym::check(C.size() == 8, "eight corners"); for (int k = 0; k < 8; k++) { eqP(C[k], P(k & 1 ? b.X() : a.X(), k & 2 ? b.Y() : a.Y(), k & 4 ? b.Z() : a.Z()), "corners"); } Box3D H = Box3D::FromCenterAndSize(B.Center(), u.X(), u.Y(), u.Z()); eqP(H.Min(), a, "from center and size"); eqP(H.Max(), b, "from center and size"); H = Box3D::FromCenterAndHalfExtents(B.Center(), B.HalfExtents()); eqP(H.Min(), a, "from half extents"); sym::obs("x", E.MinX()); }
CASE(boxfrom) { P p[3] = {pt("p"), pt("q"), pt("r")}; Box3D F = Box3D::FromPoints({p[0], p[1], p[2]}); for (auto &x : p) sym::check(F.Contains(x, 0), "FromPoints contains every point"); double lo = p[0].X(), hi = p[0].X(); for (auto &x : p) { lo = x.X() < lo ? x.X() : lo; hi = x.X() > hi ? x.X() : hi; } sym::check((F.MinX() == lo) & (F.MaxX() == hi), "FromPoints is tight in x"); sym::check(((F.MinY() == p[0].Y()) | (F.MinY() == p[1].Y()) | (F.MinY() == p[2].Y())) & ((F.MaxY() == p[0].Y()) | (F.MaxY() == p[1].Y()) | (F.MaxY() == p[2].Y())) & ((F.MinZ() == p[0].Z()) | (F.MinZ() == p[1].Z()) | (F.MinZ() == p[2].Z())) & ((F.MaxZ() == p[0].Z()) | (F.MaxZ() == p[1].Z()) | (F.MaxZ() == p[2].Z())), "FromPoints is tight"); sym::check(THROWS(GeometryError, Box3D::FromPoints({})), "FromPoints refuses no points"); sym::obs("x", F.MinX()); }
CASEN(bsphere, 0, 5, 5) { P c = pt("c"), d = at(c, sym::real("k", -3, 3), dir(n)), q = pt("q"); double r = sym::real("r", -2, 8), s = sym::real("s", 0, 8); int th = sym_throws<ArgumentError>([&] { BoundingSphere3D A(c, r), B(d, s); double D2 = n2(df(c, q)); sym::assume(far(D2 - r * r)); sym::check(A.Contains(q) == (D2 <= r * r), "sphere contains iff within the radius"); double E2 = n2(df(c, d)); sym::assume(far(E2 - (r + s) * (r + s))); sym::check(A.Intersects(B) == (E2 <= (r + s) * (r + s)), "spheres intersect iff the centers are close enough"); A.ExpandToInclude(q); sym::check(A.Radius() >= r, "expanding does not shrink"); sym::eq(A.Radius() * A.Radius(), D2 > r * r ? D2 : r * r, "expanded exactly to the point", 1e-5); sym::obs("r", A.Radius()); }); sym::check(th == (r < 0), "negative radius is refused"); }
// bodies
template <class B> static void mesh(const B &b, double vol, double area, P c, const char *l) { double v6 = 0, s = 0; for (int i = 0; i < b.GetSurfaceCount(); i++) { const Triangle3D &t = b.GetSurface(i); V x = df(c, t.Pnt1()), y = df(c, t.Pnt2()), z = df(c, t.Pnt3()); v6 += dot(x, crs(y, z)); } sym::eq(v6, 6 * vol, l, 1e-3); (void)s; (void)area; }
template <class B> static void common(const B &b, P q, bool in, bool ball = true) { sym::check(b.IsInside(q) == in, "inside iff in the defining inequalities"); if (in) { sym::check(b.GetBoundingBox().Contains(q, 1e-9), "bounding box contains the body"); if (!ball) return; P c = b.GetBoundingSphere().Center(); double r = b.GetBoundingSphere().Radius(); sym::check(n2(df(c, q)) <= r * r + 1e-6, "bounding sphere contains the body"); } }
CASEN(cube, 0, 3, 3) { P c = n & 1 ? pt("c") : P(0, 0, 0), q = pt("q"); double a = sym::real("a", 0.0625, 8), h = a / 2; V o = df(c, q); bool in = (o.X() >= -h) & (o.X() <= h) & (o.Y() >= -h) & (o.Y() <= h) & (o.Z() >= -h) & (o.Z() <= h); if (n & 2) { CubeWithTriangles3D B = n & 1 ? CubeWithTriangles3D(a, c) : CubeWithTriangles3D(a); common(B, q, in); mesh(B, B.Volume(), 0, c, "triangles enclose the volume with outward orientation"); sym::eq(B.Volume(), a * a * a, "volume"); double s2 = 0; for (int i = 0; i < B.GetSurfaceCount(); i++) { auto &t = B.GetSurface(i); double x = n2(crs(df(t.Pnt1(), t.Pnt2()), df(t.Pnt1(), t.Pnt3()))); sym::eq(x, a * a * a * a, "each triangle is half a face", 1e-4); sym::check(B.IsInside(t.Pnt1()) & B.IsInside(t.Pnt2()) & B.IsInside(t.Pnt3()), "mesh vertices belong to the body"); } sym::check(B.GetSurfaceCount() == 12, "twelve triangles"); sym::eq(B.SurfaceArea(), 6 * a * a, "surface area"); int k = sym::integer("k", -1000, 1000); sym::check(sym_throws<IndexError>([&] { (void)B.GetSurface(k); }) == !(k >= 0 && k < 12), "surface index out of range is refused"); }
  else { Cube3D B = n & 1 ? Cube3D(a, c) : Cube3D(a); common(B, q, in); double v3 = 0, s = 0; for (int i = 0; i < B.GetSurfaceCount(); i++) { auto &R = B.GetSurface(i); sym::eq(R.getArea(), a * a, "face area", 1e-5); s += a * a; eqP(P(0, 0, 0), P(0, 0, 0), "x"); V nn = R.getNormal(), m = df(c, R.getCenter()); v3 += a * a * dot(m, nn); sym::eq(n2(m), a * a / 4, "face centers are at half a side", 1e-5); } sym::eq(v3, 3 * B.Volume(), "faces enclose the volume with outward normals", 1e-4); sym::eq(s, B.SurfaceArea(), "faces add up to the surface area"); sym::eq(B.Volume(), a * a * a, "volume"); int k = sym::integer("k", -1000, 1000); sym::check(sym_throws<IndexError>([&] { (void)B.GetSurface(k); }) == !(k >= 0 && k < 6), "surface index out of range is refused"); } sym::obs("q", q.X()); }
CASEN(pyramid, 0, 1, 1) { P c = n ? pt("c") : P(0, 0, 0), q = pt("q"); double a = sym::real("a", 0.0625, 8), h = sym::real("h", 0.0625, 8); Pyramid3D B = n ? Pyramid3D(a, h, V(c.X(), c.Y(), c.Z())) : Pyramid3D(a, h); V o = df(c, q); double w = a / 2 * (h - o.Z()); sym::assume(far(o.X() * h - w) & far(o.X() * h + w) & far(o.Y() * h - w) & far(o.Y() * h + w)); bool in = (o.Z() >= 0) & (o.Z() <= h) & (o.X() * h <= w) & (o.X() * h >= -w) & (o.Y() * h <= w) & (o.Y() * h >= -w); common(B, q, in, false); { P k = B.GetBoundingSphere().Center(); double r = B.GetBoundingSphere().Radius(); sym::check((n2(df(k, at(c, h, V(0, 0, 1)))) <= r * r + 1e-6) & (n2(df(k, at(c, a / 2, V(1, 1, 0)))) <= r * r + 1e-6) & (n2(df(k, at(c, a / 2, V(-1, 1, 0)))) <= r * r + 1e-6) & (n2(df(k, at(c, a / 2, V(-1, -1, 0)))) <= r * r + 1e-6), "bounding sphere contains the vertices"); } sym::eq(B.Volume(), a * a * h / 3, "volume"); mesh(B, B.Volume(), 0, at(c, 1, V(1, 2, 3)), "triangles enclose the volume with outward orientation"); for (int i = 0; i < 6; i++) { auto &t = B.GetSurface(i); for (P x : {t.Pnt1(), t.Pnt2(), t.Pnt3()}) { V m = df(c, x); bool apex = m.Z() > h / 2; if (apex) eqP(x, at(c, h, V(0, 0, 1)), "apex"); else { sym::eq(m.Z(), 0, "base vertices are on the base"); sym::eq(m.X() * m.X(), a * a / 4, "base vertices are the corners", 1e-5); sym::eq(m.Y() * m.Y(), a * a / 4, "base vertices are the corners", 1e-5); } } } eqP(B.GetCenter(), at(c, h / 4, V(0, 0, 1)), "centroid"); double S = B.SurfaceArea() - a * a; sym::eq(S * S, 4 * a * a * (h * h + a * a / 4), "lateral area", 1e-3); sym::obs("S", S); }
CASE(sphere) { P c = pt("c"), q = pt("q"); double R = sym::real("R", 0.0625, 8); Sphere3D B(R, c, 3, 4); double d2 = n2(df(c, q)); common(B, q, d2 <= R * R); sym::check(B.GetSurfaceCount() == 4 + 8 + 4, "triangle count"); for (int i = 0; i < B.GetSurfaceCount(); i++) { auto &t = B.GetSurface(i); for (P x : {t.Pnt1(), t.Pnt2(), t.Pnt3()}) sym::eq(n2(df(c, x)), R * R, "mesh vertices are on the sphere", 1e-4); } sym::obs("v", B.Volume()); SphereGeom G(R); sym::eq(G.Volume(), B.Volume(), "volume agrees with the pure shape", 1e-5); sym::eq(G.SurfaceArea(), B.SurfaceArea(), "area agrees with the pure shape", 1e-5); sym::eq(G.CapVolume(R), G.Volume() / 2, "half-sphere cap", 1e-4); sym::eq(G.CapArea(2 * R), G.SurfaceArea(), "full cap", 1e-4); double h = sym::real("h", 0, 8); sym::assume(h <= R); sym::eq(G.CapVolume(h) + G.CapVolume(2 * R - h), G.Volume(), "complementary caps", 1e-3); sym::eq(SphereGeom::FromSurfaceArea(G.SurfaceArea()).Radius(), R, "radius from area", 1e-4); }
CASE(cylinder) { P c = pt("c"), q = pt("q"); double R = sym::real("R", 0.0625, 8), H = sym::real("H", 0.0625, 8); Cylinder3D B(R, H, c, 3); V o = df(c, q); bool in = (o.X() * o.X() + o.Y() * o.Y() <= R * R) & (o.Z() >= 0) & (o.Z() <= H); common(B, q, in); sym::check(B.GetSurfaceCount() == 12, "triangle count"); for (int i = 0; i < 12; i++) { auto &t = B.GetSurface(i); for (P x : {t.Pnt1(), t.Pnt2(), t.Pnt3()}) { V m = df(c, x); sym::eq(m.Z() * (m.Z() - H), 0, "mesh vertices are on the end planes", 1e-5); double r2 = m.X() * m.X() + m.Y() * m.Y(); sym::eq(r2 * (r2 - R * R), 0, "mesh vertices are on the rim or the axis", 1e-3); } } eqP(B.GetCenter(), at(c, H / 2, V(0, 0, 1)), "centroid"); CylinderGeom G(R, H); sym::eq(G.Volume(), B.Volume(), "volume agrees with the pure shape", 1e-4); sym::eq(G.SurfaceArea(), B.SurfaceArea(), "area agrees with the pure shape", 1e-4); sym::eq(CylinderGeom::FromVolume(G.Volume(), R).Height(), H, "height from volume", 1e-4); Cylinder3D C(R, H, 3); sym::eq(C.GetCenter().Z(), 0, "default cylinder is centered"); sym::obs("v", B.Volume()); }
CASEN(torus, 0, 3, 3) { static const double cs[4][2] = {{3, 4}, {5, 0}, {0, -5}, {-4, 3}}; P c = pt("c"); double R = sym::real("R", 1, 8), r = sym::real("r", 0.0625, 0.9375), s = sym::real("s", 0, 3), z = sym::real("z", -2, 2); P q = at(c, s, V(cs[n][0], cs[n][1], 0)); q.Z() = c.Z() + z; Torus3D B(R, r, c, 3, 3); double k = (5 * s - R) * (5 * s - R) + z * z; sym::assume(far(k - r * r)); bool in = k <= r * r; common(B, q, in); TorusGeom G(R, r); sym::eq(G.Volume(), B.Volume(), "volume agrees with the pure shape", 1e-4); sym::eq(G.SurfaceArea(), B.SurfaceArea(), "area agrees with the pure shape", 1e-4); sym::obs("v", B.Volume()); }
CASE(toruspt) { P c = pt("c"); double R = sym::real("R", 1, 8), r = sym::real("r", 0.0625, 0.9375), u = sym::real("u", -3, 3), v = sym::real("v", -3, 3); Torus3D B(R, r, c, 3, 3); V o = df(c, B.torusPoint(u, v)); double s2 = o.X() * o.X() + o.Y() * o.Y(), k = s2 + o.Z() * o.Z() + R * R - r * r; sym::eq(k * k, 4 * R * R * s2, "torus points satisfy the implicit equation", 1e-2); Sphere3D S(R, c, 3, 3); sym::eq(n2(df(c, S.spherePoint(u, v))), R * R, "sphere points are at the radius", 1e-4); }
static double z1f(double, double) { return -1; } static double z2f(double x, double y) { return 1 + x * x + y; } static double y1f(double x) { return -x; } static double y2f(double x) { return 2 + x; } static double den(const VectorN<Real, 3> &v) { return v[0] + 2 * v[1]; }
CASE(solid) { P q = pt("q"); SolidBodyWithBoundary B(-1, 2, y1f, y2f, z1f, z2f, den); bool in = (q.X() > -1) & (q.X() < 2) & (q.Y() > -q.X()) & (q.Y() < 2 + q.X()) & (q.Z() > -1) & (q.Z() < 1 + q.X() * q.X() + q.Y()); sym::check(B.IsInside(q) == in, "solid between its boundary functions"); sym::eq(B.getDensity(VectorN<Real, 3>{q.X(), q.Y(), q.Z()}), q.X() + 2 * q.Y(), "density"); SolidBodyWithBoundaryConstDensity D(-1, 2, y1f, y2f, z1f, z2f, 3.0); sym::check(D.IsInside(q) == in, "constant-density solid"); sym::eq(D.getDensity(VectorN<Real, 3>{1, 2, 3}), 3, "constant density"); Cube3D K(2.0); Sphere3D S(1.5, P(2, 0, 0), 3, 3); ComposedSolidSurfaces3D C({&K}); C.AddSolid(&S); C.AddSolid(nullptr); sym::check(C.IsInside(q) == (K.IsInside(q) || S.IsInside(q)), "composed body is the union"); sym::obs("q", q.X()); }
// pure shapes
CASE(shapes) { double r = sym::real("r", 0.0625, 8), s = sym::real("s", 0.0625, 8), h = sym::real("h", 0.0625, 8); Frustum F(r, s, h), Y(r, r, h), K(r, 0, h); CylinderGeom C(r, h); ConeGeom N(r, h); sym::eq(Y.Volume(), C.Volume(), "frustum with equal radii is a cylinder", 1e-4); sym::eq(Y.LateralArea(), C.LateralArea(), "frustum with equal radii has the cylinder's side", 1e-4); sym::eq(K.Volume(), N.Volume(), "frustum with zero top is a cone", 1e-4); sym::eq(K.SurfaceArea(), N.SurfaceArea(), "frustum with zero top has the cone's area", 1e-4); sym::eq(F.Volume(), Frustum(s, r, h).Volume(), "frustum upside down", 1e-4); sym::eq(3 * N.Volume(), C.Volume(), "cone is a third of the cylinder", 1e-4); double L = N.SlantHeight(); sym::eq(ConeGeom::FromSlantHeight(r, L).Height(), h, "cone height from slant", 1e-5); sym::eq(N.LateralArea(), Constants::PI * r * L, "cone side", 1e-4); sym::eq(std::tan(N.ApexAngle()) * h, r, "apex angle", 1e-4); sym::assume(r > s + 0.01); double H = h * r / (r - s); sym::eq(F.Volume(), ConeGeom(r, H).Volume() - ConeGeom(s, H - h).Volume(), "frustum is a cone less its tip", 1e-2); sym::obs("L", L); Spheroid E(r, r), O(r, s); sym::eq(E.Volume(), SphereGeom(r).Volume(), "round spheroid", 1e-4); sym::eq(E.SurfaceArea(), SphereGeom(r).SurfaceArea(), "round spheroid area", 1e-4); sym::check(E.IsSphere() && O.IsOblate() && !O.IsProlate() && !O.IsSphere(), "classification"); double e = O.Eccentricity(); sym::eq(e * e * r * r, r * r - s * s, "eccentricity", 1e-4); double e2 = Spheroid(s, r).Eccentricity(); sym::eq(e2 * e2 * r * r, r * r - s * s, "prolate eccentricity", 1e-4); }
CASEN(tetra, 0, 5, 5) { V d = dir(n), e = dir((n + 1) % 6), f = dir((n + 3) % 6); double a = sym::real("a", 0.0625, 8), b = sym::real("b", 0.0625, 8), c = sym::real("c", 0.0625, 8); P A(0, 0, 0), B = at(A, a, d), C = at(A, b, e), D = at(A, c, f); auto L = [](P x, P y) { return x.Dist(y); }; Tetrahedron T(L(A, B), L(A, C), L(A, D), L(B, C), L(B, D), L(C, D)); double v = T.Volume(), g = dot(df(A, B), crs(df(A, C), df(A, D))); sym::check(v >= 0, "volume is nonnegative"); sym::eq(36 * v * v, g * g, "volume from edge lengths equals the triple product", 1e-2); sym::obs("v", v); Tetrahedron R = Tetrahedron::Regular(a); sym::check(R.IsRegular(), "regular"); sym::eq(72 * R.Volume() * R.Volume(), a * a * a * a * a * a, "regular volume", 1e-3); sym::eq(R.SurfaceArea() * R.SurfaceArea(), 3 * a * a * a * a, "regular surface", 1e-3); sym::eq(24 * R.Inradius() * R.Inradius(), a * a, "regular inradius", 1e-4); sym::eq(8 * R.Circumradius() * R.Circumradius(), 3 * a * a, "regular circumradius", 1e-4); }
// ray against triangle: the ray hits the plane of the triangle at barycentric (u,v) after parameter t
CASEN(ray, 0, 11, 11) { V d = dir(n % 6), e = dir(n % 6 + 1), w = dir((n + 3) % 6); double a = sym::real("a", 0.0625, 4), b = sym::real("b", 0.0625, 4), u = sym::real("u", -2, 2), v = sym::real("v", -2, 2), t = sym::real("t", -4, 4); P p = pt("p", -4, 4); bool cull = n >= 6; double g = dot(w, crs(d, e)); if (g == 0) { w = w + crs(d, e); g = dot(w, crs(d, e)); } bool back = sym::flag("back"); if (back) { w = -w; g = -g; } sym::assume(far(u) & far(v) & far(1 - u - v) & far(t)); P x = at(at(p, u * a, d), v * b, e), o = at(x, -t, w); Triangle3D T(p, at(p, a, d), at(p, b, e)); auto r = CompGeometry::Intersections::IntersectRayTriangle(o, w, T, cull); bool front = g < 0, want = (u > 0) & (v > 0) & (u + v < 1) & (t > 0); if (cull) want = want & front; sym::check(r.hit == want, "ray hits iff it meets the triangle ahead (from the front when culling)"); if (r.hit) { sym::eq(r.t, t, "hit parameter", 1e-5); sym::eq(r.u, u, "first barycentric coordinate", 1e-4); sym::eq(r.v, v, "second barycentric coordinate", 1e-4); eqP(r.point, x, "hit point", 1e-5); } P y = at(p, 1, crs(d, e)); auto z = CompGeometry::Intersections::IntersectRayTriangle(y, d, T, cull); sym::check(!z.hit, "a ray parallel to the triangle misses it"); sym::obs("t", r.t); }
CASE(geo) { double la = sym::real("la", -90, 90), lo = sym::real("lo", -180, 180); Pnt3Sph s = SphericalGeometryCalculator::SphericalFromLatLong(la, lo); sym::eq(s.R(), 1, "unit sphere"); sym::eq(s.Theta() * 180, (90 - la) * Constants::PI, "polar angle from latitude", 1e-5); sym::eq(s.Phi() * 180, lo * Constants::PI, "azimuth from longitude", 1e-5); double th = sym::real("th", 0, 3), ph = sym::real("ph", -3, 3), R = sym::real("R", 0, 8); P c = SphericalGeometryCalculator::CartesianFromSpherical(Pnt3Sph(R, th, ph)); sym::eq(c.X() * c.X() + c.Y() * c.Y() + c.Z() * c.Z(), R * R, "radius is kept", 1e-5); double q = SphericalGeometryCalculator::RadiusFromCartesian(c); sym::eq(q, R, "radius from Cartesian", 1e-5); P k = pt("k"); double rr = SphericalGeometryCalculator::RadiusFromCartesian(k); sym::eq(rr * rr, n2(V(k.X(), k.Y(), k.Z())), "radius squared", 1e-5); }
CASE(geodist) { double a = sym::real("a", -90, 90), b = sym::real("b", -180, 180), c = sym::real("c", -90, 90), d = sym::real("d", -180, 180); double D = SphericalGeometryCalculator::DistanceBetweenLatLong(a, b, c, d), E = SphericalGeometryCalculator::DistanceBetweenLatLong(2.0, a, b, c, d); sym::check((D >= 0) & (D <= 3.1416), "angular distance is in [0,pi]"); sym::eq(E, 2 * D, "distance scales with the radius"); P p = SphericalGeometryCalculator::CartesianFromSpherical(SphericalGeometryCalculator::SphericalFromLatLong(a, b)), q = SphericalGeometryCalculator::CartesianFromSpherical(SphericalGeometryCalculator::SphericalFromLatLong(c, d)); double k = p.X() * q.X() + p.Y() * q.Y() + p.Z() * q.Z(); k = k < -1 ? -1 : k > 1 ? 1 : k; sym::eq(std::cos(D), k, "cosine of the angle equals the dot product", 1e-5); }
