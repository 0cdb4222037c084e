// BOUNDS: convex hulls of 0 to 5 points over eleven patterns of abscissae (including equal ones, duplicates and collinear sets) with every ordinate in [-4,4]; clipping of four subject shapes at every position in a 12x12 window against rectangles and convex regions of both orientations, decided at every query point; ear clipping of every simple quadrilateral and pentagon over fixed abscissae; Delaunay triangulation of 3 and 4 points over fixed abscissae; smallest circle of 2 and 3 points under every random schedule, and of 4 points; closest pair of 2 to 5 points over fixed abscissae; turns of zero or at least 1e-3
// STUBS: the random source of the smallest-circle algorithm (std::shuffle, std::mt19937, std::random_device, std::uniform_int_distribution) is replaced by free choices, so every schedule is covered (quick tier: every first choice for four points)
// OUTSIDE: rounding, larger point sets, the documented-approximate boolean operations on non-convex polygons
#include "h.h"
#include <random>
#include <algorithm>
#include <vector>
namespace std { struct sym_rd { unsigned operator()() { return 1; } }; struct sym_mt { explicit sym_mt(unsigned = 0) {} }; static int sym_free = 1; template <class T> struct sym_uid { T lo, hi; sym_uid(T a, T b) : lo(a), hi(b) {} T operator()(sym_mt &) { return hi < sym_free ? hi : (T)sym::pick(lo, hi, "rng"); } }; template <class I, class G> void sym_shuffle(I, I, G &) {} }
#define mt19937 sym_mt
#define random_device sym_rd
#define uniform_int_distribution sym_uid
#define shuffle sym_shuffle
#include "mml/algorithms/CompGeometry/Circles.h"
#undef mt19937
#undef random_device
#undef uniform_int_distribution
#undef shuffle
#include "mml/algorithms/CompGeometry/ConvexHull.h"
#include "mml/algorithms/CompGeometry/PolygonOps.h"
#include "mml/algorithms/CompGeometry/Triangulation.h"
using namespace MML::CompGeometry;
typedef Point2Cartesian P2; typedef std::vector<P2> PV;
static double cr(P2 o, P2 a, P2 b) { return (a.X() - o.X()) * (b.Y() - o.Y()) - (a.Y() - o.Y()) * (b.X() - o.X()); }
static double d2(P2 a, P2 b) { return (a.X() - b.X()) * (a.X() - b.X()) + (a.Y() - b.Y()) * (a.Y() - b.Y()); }
static bool same(const P2 &a, const P2 &b) { return a.X() == b.X() && a.Y() == b.Y(); }
static bool among(const P2 &a, const PV &v) { for (auto &p : v) if (same(a, p)) return true; return false; }
// ---- convex hull
static const int HX[][5] = {{0, 1, 2, 3, 9}, {2, 0, 1, 0, 9}, {1, 1, 0, 2, 9}, {0, 0, 0, 2, 9}, {1, 1, 1, 1, 9}, {0, 3, 1, 2, 9}, {2, 0, 1, 9, 9}, {1, 0, 1, 9, 9}, {0, 0, 0, 9, 9}, {0, 1, 2, 3, 4}, {2, 0, 1, 2, 0}};
CASEN(hull, 0, 8, 10) { PV v; for (int i = 0; i < 5 && HX[n][i] != 9; i++) v.push_back(P2(HX[n][i], sym::real("y", i, -4, 4))); int m = v.size(); for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) { if (HX[n][i] == HX[n][j]) sym::assume(sep(v[i].Y() - v[j].Y())); for (int k = j + 1; k < m; k++) sym::assume(sep(cr(v[i], v[j], v[k]))); } Polygon2D h = ConvexHull2D::Compute(v); int s = h.NumVertices(); sym::obs("size", s); sym::check(s >= 1 && s <= m, "size"); for (int i = 0; i < s; i++) sym::check(among(h[i], v), "hull vertices are input points"); for (int i = 0; i < s; i++) for (int j = 0; j < i; j++) sym::check(!same(h[i], h[j]), "hull vertices are distinct"); if (s == 1) for (auto &p : v) sym::check(same(p, h[0]), "one vertex only if all points coincide"); if (s == 2) for (auto &p : v) { sym::eq(cr(h[0], h[1], p), 0, "two vertices only if collinear"); sym::check((p.X() - h[0].X()) * (p.X() - h[1].X()) + (p.Y() - h[0].Y()) * (p.Y() - h[1].Y()) <= 0, "all points between the two extremes"); } if (s >= 3) for (int i = 0; i < s; i++) { sym::check(cr(h[i], h[(i + 1) % s], h[(i + 2) % s]) > 0, "strictly convex, counter-clockwise"); for (auto &p : v) sym::check(cr(h[i], h[(i + 1) % s], p) >= 0, "every point inside"); } }
CASE(hullsmall) { double x = sym::real("x", -4, 4), y = sym::real("y", -4, 4), z = sym::real("z", -4, 4); PV e; P2 a(x, y), b(z, x); sym::obs("x", x); sym::check(ConvexHull2D::Compute(e).NumVertices() == 0, "no points"); Polygon2D o = ConvexHull2D::Compute(PV{a}), t = ConvexHull2D::Compute(PV{a, b}); sym::check(o.NumVertices() == 1 && same(o[0], a), "one point"); sym::check(t.NumVertices() == 2 && among(a, t.Vertices()) && among(b, t.Vertices()), "two points"); }
CASE(hullpoly) { PV v; int X[] = {0, 2, 1, 3}; for (int i = 0; i < 4; i++) v.push_back(P2(X[i], sym::real("y", i, -4, 4))); for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) for (int k = j + 1; k < 4; k++) sym::assume(sep(cr(v[i], v[j], v[k]))); Polygon2D h = ConvexHull2D::Compute(v), g = ConvexHull2D::Compute(Polygon2D(v)); std::reverse(v.begin(), v.end()); Polygon2D r = ConvexHull2D::Compute(v); sym::obs("size", h.NumVertices()); sym::check(h.NumVertices() == g.NumVertices() && h.NumVertices() == r.NumVertices(), "same hull"); for (int i = 0; i < h.NumVertices() && i < r.NumVertices() && i < g.NumVertices(); i++) sym::check(same(h[i], g[i]) && same(h[i], r[i]), "same hull whatever the order"); }
// ---- clipping
static PV shape(int k, double x, double y) { static const double S[4][4][2] = {{{0, 0}, {2, 1}, {1, 3}, {9, 9}}, {{0, 0}, {1, 4}, {6, -1}, {9, 9}}, {{0, 0}, {3, -1}, {4, 2}, {1, 3}}, {{0, 0}, {-1, 5}, {5, 5}, {9, 9}}}; PV v; for (int i = 0; i < 4 && S[k][i][0] != 9; i++) v.push_back(P2(x + S[k][i][0], y + S[k][i][1])); return v; }
static PV region(int k) { switch (k) { case 0: return {P2(0, 0), P2(3, 0), P2(3, 2), P2(0, 2)}; case 1: return {P2(0, 0), P2(0, 2), P2(3, 2), P2(3, 0)}; case 2: return {P2(0, 0), P2(3, 1), P2(1, 3)}; case 3: return {P2(0, 0), P2(1, 3), P2(3, 1)}; default: return {P2(3, 2), P2(0, 2), P2(0, 0), P2(3, 0)}; } }
static double area2(const PV &v) { double s = 0; int n = v.size(); for (int i = 1; i + 1 < n; i++) s += cr(v[0], v[i], v[i + 1]); return s; }
static int sideIn(const PV &v, const P2 &q) { int n = v.size(); double o = area2(v) > 0 ? 1 : -1; int in = 1; for (int i = 0; i < n; i++) { double c = o * cr(v[i], v[(i + 1) % n], q); in &= c > 0; } return in; }
static void assumeFar(const PV &v, const P2 &q, double e = 0.0009765625) { int n = v.size(); for (int i = 0; i < n; i++) sym::assume(far(cr(v[i], v[(i + 1) % n], q), e)); }
static void clipTest(int k, int reg, double x, double y, bool on, bool rect = false) { PV s = shape(k, x, y), c = region(reg); for (auto &p : s) for (size_t i = 0; i < c.size(); i++) { double d = cr(c[i], c[(i + 1) % c.size()], p); sym::assume(on ? sep(d) : far(d)); } for (auto &p : c) for (size_t i = 0; i < s.size(); i++) { double d = cr(s[i], s[(i + 1) % s.size()], p); sym::assume(on ? sep(d) : far(d)); } P2 q(sym::real("u", -6, 6), sym::real("v", -6, 6)); assumeFar(c, q); assumeFar(s, q); Polygon2D r = rect ? PolygonOps::ClipToRect(Polygon2D(s), 0, 0, 3, 2) : PolygonOps::ClipPolygon(Polygon2D(s), Polygon2D(c)); int m = r.NumVertices(); sym::obs("size", m); sym::check(m == 0 || m >= 3, "empty or a polygon"); bool want = sideIn(s, q) & sideIn(c, q), got = m > 0, some = false; double o = area2(s) > 0 ? 1 : -1; for (int i = 0; i < m; i++) { double k = o * cr(r[i], r[(i + 1) % m], q); got &= k >= -1e-12; some |= k > 1e-12; } got &= some; sym::check(want == got, "a point is in the result iff it is in both"); }
CASEN(clip, 0, -1, 19) { double x = sym::real("x", -3, 3), y = sym::real("y", -3, 3); clipTest(n / 5, n % 5, x, y, false); }
static const double OX[] = {-1, 0, 2, -3, 3};
CASEN(clipon, 0, 9, 24) { double y = sym::real("y", -5, 3); clipTest(n % 2 ? 2 : 0, n / 2 % 5, OX[n % 5], y, true); }
CASEN(cliprect, 0, 4, 4) { double y = sym::real("y", -5, 3); clipTest(n % 4, 0, OX[n], y, true, true); }
CASE(clipvert) { double x = sym::real("x", -6, 6), y = sym::real("y", -6, 6); PV v{P2(x, y), P2(x + 4, y + 1), P2(x + 1, y + 2), P2(x - 1, y + 5)}; Polygon2D r = PolygonOps::ClipToRect(Polygon2D(v), -2, -1, 2, 1); sym::obs("size", r.NumVertices()); for (int i = 0; i < r.NumVertices(); i++) sym::check(r[i].X() >= -2.000001 && r[i].X() <= 2.000001 && r[i].Y() >= -1.000001 && r[i].Y() <= 1.000001, "every vertex within the window, non-convex subject"); }
CASE(clipsmall) { double x = sym::real("x", -6, 6); Polygon2D t({P2(0, 0), P2(x, 1), P2(2, x)}), d({P2(x, 0), P2(1, 1)}); sym::obs("x", x); sym::check(PolygonOps::ClipPolygon(t, d).NumVertices() == 0 && PolygonOps::ClipPolygon(d, t).NumVertices() == 0, "fewer than three vertices give nothing"); }
CASEN(inter, 0, 3, 15) { double x = sym::real("x", -6, 6), y = 0.625 * x + 1.3 * (sym::deep() ? sym::pick(-1, 1, "off") : 0); PV s = shape(n % 4, x, y), c = region((n + n / 4) % 4); for (auto &p : s) for (size_t i = 0; i < c.size(); i++) sym::assume(sep(cr(c[i], c[(i + 1) % c.size()], p))); auto r = PolygonOps::PolygonIntersectionApprox(Polygon2D(s), Polygon2D(c)); Polygon2D k = PolygonOps::ClipPolygon(Polygon2D(s), Polygon2D(c)); sym::obs("size", r.size()); sym::check(r.size() == (k.NumVertices() >= 3 ? 1u : 0u), "intersection of convex polygons is the clip"); if (r.size() == 1) { sym::check(r[0].NumVertices() == k.NumVertices(), "same vertices"); } auto d = PolygonOps::PolygonDifferenceApprox(Polygon2D(s), Polygon2D(c)); if (r.empty()) sym::check(d.size() == 1 && d[0].NumVertices() == (int)s.size(), "disjoint difference is the subject"); }
// ---- ear clipping
static const int EX[][5] = {{0, 3, 2, 1, 9}, {0, 1, 3, 1, 9}, {2, 0, 1, 3, 9}, {0, 2, 4, 3, 1}, {0, 1, 4, 2, 3}};
static bool cross4(P2 a, P2 b, P2 c, P2 d) { double p = cr(a, b, c), q = cr(a, b, d), r = cr(c, d, a), s = cr(c, d, b); return ((p > 0) & (q < 0) | (p < 0) & (q > 0)) & ((r > 0) & (s < 0) | (r < 0) & (s > 0)); }
CASEN(ear, 0, 2, 4) { PV v; for (int i = 0; i < 5 && EX[n][i] != 9; i++) v.push_back(P2(EX[n][i], sym::real("y", i, -4, 4))); int m = v.size(); for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) for (int k = j + 1; k < m; k++) sym::assume(far(cr(v[i], v[j], v[k]))); for (int i = 0; i < m; i++) for (int j = i + 2; j < m; j++) if (i || j < m - 1) sym::assume(!cross4(v[i], v[i + 1], v[j], v[(j + 1) % m])); auto t = Triangulation::EarClipTriangulation(Polygon2D(v)); sym::obs("count", t.size()); sym::check((int)t.size() == m - 2, "n-2 triangles"); double s = 0, A = area2(v); for (auto &q : t) { double a = cr(q.Pnt1(), q.Pnt2(), q.Pnt3()); sym::check(a > 0, "every triangle is counter-clockwise and not flat"); sym::check(among(q.Pnt1(), v) && among(q.Pnt2(), v) && among(q.Pnt3(), v), "triangle corners are polygon vertices"); s += a; } sym::eq(s * s, A * A, "triangles add up to the polygon (a partition, as none is negative)", 1e-6); }
// ---- Delaunay
static double incirc(P2 a, P2 b, P2 c, P2 p) { double ax = a.X() - p.X(), ay = a.Y() - p.Y(), bx = b.X() - p.X(), by = b.Y() - p.Y(), cx = c.X() - p.X(), cy = c.Y() - p.Y(); return det3(ax, ay, ax * ax + ay * ay, bx, by, bx * bx + by * by, cx, cy, cx * cx + cy * cy); }
static void delTest(PV v) { int m = v.size(); auto t = Triangulation::ComputeDelaunay(v); sym::obs("count", t.NumTriangles()); sym::check(t.NumPoints() == m, "keeps the points"); for (int i = 0; i < m; i++) sym::check(same(t.points[i], v[i]), "points in input order"); double s = 0; for (int i = 0; i < t.NumTriangles(); i++) { auto &q = t.triangles[i]; P2 a = v[q[0]], b = v[q[1]], c = v[q[2]]; double d = cr(a, b, c); sym::check(d > 0, "counter-clockwise"); s += d; for (int k = 0; k < m; k++) if (k != q[0] && k != q[1] && k != q[2]) sym::check(incirc(a, b, c, v[k]) <= 1e-6, "empty circumcircle"); for (int e = 0; e < 3; e++) { int o = t.neighbors[i][e]; sym::check(o >= -1 && o < t.NumTriangles() && o != i, "neighbour index"); if (o >= 0) { bool back = false; for (int f = 0; f < 3; f++) back |= t.neighbors[o][f] == i && t.triangles[o][f] == q[(e + 1) % 3] && t.triangles[o][(f + 1) % 3] == q[e]; sym::check(back, "neighbours share the edge and agree"); } } } int he = t.GetConvexHullEdges().size(); sym::check(3 * t.NumTriangles() == he + 2 * [&] { int c = 0; for (auto &x : t.neighbors) for (int e = 0; e < 3; e++) c += x[e] >= 0; return c / 2; }(), "edges counted once or twice"); }
static void locTest(PV v) { auto t = Triangulation::ComputeDelaunay(v); P2 z(sym::real("qx", -4, 8), sym::real("qy", -4, 8)); sym::obs("n", t.NumTriangles()); int l = t.LocatePoint(z); bool any = false; for (int i = 0; i < t.NumTriangles(); i++) { auto &q = t.triangles[i]; bool in = (cr(v[q[0]], v[q[1]], z) >= 0) & (cr(v[q[1]], v[q[2]], z) >= 0) & (cr(v[q[2]], v[q[0]], z) >= 0); if (i == l) sym::check(in, "the located triangle contains the point"); any |= in; } sym::check(any == (l >= 0), "found iff some triangle contains it"); }
CASE(del3) { PV v{P2(0, 0), P2(2, sym::real("y", -1, 1)), P2(1, 2)}; delTest(v); auto t = Triangulation::ComputeDelaunay(v); sym::check(t.NumTriangles() == 1, "three points make one triangle"); }
CASEN(del4, 0, 3, 7) { static const double B[4][2] = {{2, 0}, {2, 1}, {1, -1}, {3, 1}}; double x = n < 4 ? 2.5 : 1.5, y = sym::real("y", -3, 3); PV v{P2(0, 0), P2(B[n % 4][0], B[n % 4][1]), P2(x, y), P2(0, 2)}; for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) for (int k = j + 1; k < 4; k++) sym::assume(far(cr(v[i], v[j], v[k]), 0.125)); for (int i = 0; i < 4; i++) sym::assume(far(incirc(v[i], v[(i + 1) % 4], v[(i + 2) % 4], v[(i + 3) % 4]), 0.125)); delTest(v); }
CASE(loc) { locTest({P2(0, 0), P2(3, 0), P2(1, 2), P2(2, 3), P2(1, 0.5)}); }
CASE(delsmall) { double x = sym::real("x", -4, 4); sym::obs("x", x); PV e, a{P2(x, 1)}, b{P2(x, 1), P2(1, x)}; sym::check(Triangulation::ComputeDelaunay(e).NumTriangles() == 0 && Triangulation::ComputeDelaunay(a).NumTriangles() == 0 && Triangulation::ComputeDelaunay(b).NumTriangles() == 0 && Triangulation::ComputeDelaunay(b).NumPoints() == 2, "too few points"); }
CASE(interp) { PV v{P2(0, 0), P2(3, 0), P2(1, 2), P2(2, 3)}; auto t = Triangulation::ComputeDelaunay(v); double p = sym::real("p", -4, 4), q = sym::real("q", -4, 4), r = sym::real("r", -4, 4); std::vector<Real> val; for (auto &a : v) val.push_back(p * a.X() + q * a.Y() + r); P2 z(sym::real("x", -1, 4), sym::real("y", -1, 4)); double g = t.Interpolate(z, val, 77); sym::obs("g", g); if (t.LocatePoint(z) >= 0) sym::eq(g, p * z.X() + q * z.Y() + r, "linear data reproduced"); else sym::eq(g, 77, "default outside"); val.pop_back(); sym::eq(t.Interpolate(z, val, 5), 5, "wrong value count refused"); }
// ---- smallest enclosing circle
static void circTest(PV v) { Circle2D c = Circles::MinimumEnclosingCircle(v); P2 o = c.Center(); double r = c.Radius(); sym::obs("r2", r * r); sym::check(r >= 0, "radius nonnegative"); for (auto &p : v) sym::check(d2(p, o) <= r * r + 1e-5, "every point inside"); int m = v.size(); bool opt = false; for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) { opt |= d2(v[i], v[j]) >= 4 * r * r - 1e-5; for (int k = j + 1; k < m; k++) { bool on = true; for (int l : {i, j, k}) { double e = d2(v[l], o) - r * r; on &= (e <= 1e-6) & (e >= -1e-6); } auto dt = [](P2 a, P2 b, P2 c) { return (b.X() - a.X()) * (c.X() - a.X()) + (b.Y() - a.Y()) * (c.Y() - a.Y()); }; opt |= on & (dt(v[i], v[j], v[k]) >= -1e-6) & (dt(v[j], v[i], v[k]) >= -1e-6) & (dt(v[k], v[i], v[j]) >= -1e-6); } } sym::check(opt, "held by a diameter or by three points of an acute triangle (hence smallest)"); }
CASE(circ2) { PV v{P2(sym::real("a", -2, 2), sym::real("b", -2, 2)), P2(sym::real("c", -2, 2), sym::real("d", -2, 2))}; circTest(v); }
CASEN(circ3, 0, 3, 5) { static const double Y[] = {0, 0.5, 1, 2, 0.25, 3}; circTest({P2(-1, 0), P2(1, 0), P2(sym::real("x", -4, 4), Y[n])}); }
CASEN(circ4, 0, 2, 7) { if (!sym::deep()) std::sym_free = 3; static const double B[4][2] = {{0, -1}, {0, 2}, {3, 1}, {-0.5, 0.5}}; circTest({P2(-1, 0), P2(n < 4 ? -0.5 : 0.75, sym::real("y", 0.5, 3)), P2(1, 0), P2(B[n % 4][0], B[n % 4][1])}); }
CASE(circ01) { P2 a(sym::real("x", -4, 4), sym::real("y", -4, 4)); sym::obs("x", a.X()); Circle2D c = Circles::MinimumEnclosingCircle(PV{}), d = Circles::MinimumEnclosingCircle(PV{a}); sym::check(c.Radius() == 0 && d.Radius() == 0 && same(d.Center(), a), "nothing and one point"); }
// ---- closest pair
static const int CX[][5] = {{1, 0, 9, 9, 9}, {2, 0, 1, 9, 9}, {0, 0, 1, 3, 9}, {1, 1, 1, 1, 9}, {0, 1, 2, 3, 4}, {2, 2, 2, 2, 2}, {0, 4, 1, 4, 3}};
CASEN(pair, 0, 5, 6) { PV v; for (int i = 0; i < 5 && CX[n][i] != 9; i++) v.push_back(P2(CX[n][i], (n >= 4 && i < 3 || n == 2 && i % 3 == 0) ? (i * 3) % 4 : sym::real("y", i, -4, 4))); int m = v.size(); auto r = Circles::ClosestPair(v); sym::obs("d2", r.distance * r.distance); sym::check(among(r.p1, v) && among(r.p2, v), "the pair is among the points"); sym::eq(r.distance * r.distance, d2(r.p1, r.p2), "distance of the reported pair", 1e-6); for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) sym::check(r.distance * r.distance <= d2(v[i], v[j]) + 1e-7, "no pair is closer"); }
