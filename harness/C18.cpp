// BOUNDS: trees over 0 to 7 points in the plane and 0 to 5 in space, leaf sizes 1 to 3, several point patterns (grid, collinear, repeated points, repeated split coordinates) plus patterns with two free coordinates in [-4,4]; every query point in [-4,8]^2 (in space: in one plane of the quick tier, all of [-4,8]^3 in the thorough one), every k from -1 to one more than the number of points, every radius in [-1,8], every box
// OUTSIDE: rounding, larger trees, timing statistics
#include "h.h"
#include "mml/algorithms/CompGeometry/KDTree.h"
#include <set>
typedef Point2Cartesian P2; typedef Point3Cartesian P3;
static const int G2[][7][2] = {{{0, 0}, {2, 1}, {1, 3}, {3, 2}, {1, 1}, {9, 9}}, {{0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 1}, {9, 9}}, {{1, 1}, {1, 1}, {1, 1}, {9, 9}}, {{2, 0}, {2, 2}, {2, 1}, {0, 1}, {3, 1}, {2, 3}, {9, 9}}, {{1, 2}, {9, 9}}, {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 0}, {5, 0}, {6, 0}}, {{9, 9}}};
static std::vector<P2> pts(int n) { std::vector<P2> v; for (int i = 0; i < 7 && G2[n][i][0] != 9; i++) v.push_back(P2(G2[n][i][0], G2[n][i][1])); return v; }
static double d2(const P2 &a, const P2 &b) { return (a.X() - b.X()) * (a.X() - b.X()) + (a.Y() - b.Y()) * (a.Y() - b.Y()); }
static double d3(const P3 &a, const P3 &b) { return (a.X() - b.X()) * (a.X() - b.X()) + (a.Y() - b.Y()) * (a.Y() - b.Y()) + (a.Z() - b.Z()) * (a.Z() - b.Z()); }
template <class P> static auto dd(const P &a, const P &b) { if constexpr (std::is_same<P, P2>::value) return d2(a, b); else return d3(a, b); }
static P2 qry() { double x = sym::real("qx", -4, 8), y = sym::real("qy", -4, 8); return P2(x, y); }
template <class T, class P> static T mk(const std::vector<P> &v, int leaf) { T t; KDTreeConfig c; c.max_leaf_size = leaf; t.build(v, c); return t; }
template <class T, class P> static void nearTest(const std::vector<P> &v, int leaf, P q) { T t = mk<T>(v, leaf); int m = v.size(); auto r = t.findNearest(q); sym::obs("found", r.found); sym::check((int)t.size() == m && t.empty() == (m == 0), "size"); sym::check(r.found == (m > 0), "found iff there is a point"); if (m == 0) { sym::check(r.status == AlgorithmStatus::InvalidInput, "empty tree reported"); return; } sym::check(r.index < v.size(), "index in range"); if (r.index >= v.size()) return; double best = dd(v[r.index], q); sym::check(r.distance >= 0, "distance nonnegative"); sym::eq(r.distance * r.distance, best, "distance of the reported point"); for (auto &p : v) sym::check(best <= dd(p, q), "no point is nearer"); }
template <class T, class P> static void knnTest(const std::vector<P> &v, int leaf, P q, int k) { T t = mk<T>(v, leaf); int m = v.size(); auto r = t.findKNearest(q, k); int want = k <= 0 ? 0 : k < m ? k : m; sym::obs("count", r.indices.size()); sym::check((int)r.indices.size() == want && (int)r.distances.size() == want, "min(k,n) neighbours"); sym::check((r.status == AlgorithmStatus::InvalidInput) == (k <= 0) || m == 0, "non-positive k refused"); std::set<size_t> s; for (size_t i = 0; i < r.indices.size(); i++) { sym::check(r.indices[i] < v.size() && s.insert(r.indices[i]).second, "distinct valid indices"); if (r.indices[i] >= v.size()) return; sym::eq(r.distances[i] * r.distances[i], dd(v[r.indices[i]], q), "distances belong to the points"); if (i) sym::check(dd(v[r.indices[i - 1]], q) <= dd(v[r.indices[i]], q), "sorted by distance"); } if (want > 0) for (int i = 0; i < m; i++) if (!s.count(i)) sym::check(dd(v[i], q) >= dd(v[r.indices.back()], q), "points left out are no nearer"); }
template <class T, class P> static void radTest(const std::vector<P> &v, int leaf, P q, double R) { T t = mk<T>(v, leaf); int m = v.size(); auto r = t.findInRadius(q, R); sym::obs("count", r.indices.size()); if (R < 0) { sym::check(r.indices.empty() && (m == 0 || r.status == AlgorithmStatus::InvalidInput), "negative radius refused"); return; } std::set<size_t> s; sym::check(r.indices.size() == r.distances.size(), "one distance per point"); for (size_t i = 0; i < r.indices.size(); i++) { sym::check(r.indices[i] < v.size() && s.insert(r.indices[i]).second, "distinct valid indices"); sym::eq(r.distances[i] * r.distances[i], dd(v[r.indices[i]], q), "distances belong to the points"); } for (int i = 0; i < m; i++) sym::check((dd(v[i], q) <= R * R) == (s.count(i) > 0), "exactly the points within the radius"); }
static void boxTest2(const std::vector<P2> &v, int leaf, P2 a, P2 b) { auto t = mk<KDTree2D>(v, leaf); auto r = t.findInBox(a, b); std::set<size_t> s; sym::obs("count", r.size()); for (size_t i : r) sym::check(i < v.size() && s.insert(i).second, "distinct valid indices"); for (size_t i = 0; i < v.size(); i++) { bool in = (v[i].X() >= a.X()) & (v[i].X() <= b.X()) & (v[i].Y() >= a.Y()) & (v[i].Y() <= b.Y()); sym::check(in == (s.count(i) > 0), "exactly the points in the box, border included"); } }
CASEN(near2, 0, 6, 6) { nearTest<KDTree2D>(pts(n), 1, qry()); }
CASEN(near2l, 0, 3, 6) { nearTest<KDTree2D>(pts(n), 2, qry()); }
CASEN(knn2, 0, 6, 20) { knnTest<KDTree2D>(pts(n % 7), 1 + n / 7, qry(), sym::pick(-1, n % 7 == 0 || n % 7 == 3 || n % 7 == 5 ? 3 : (int)pts(n % 7).size() + 1, "k")); }
CASEN(rad2, 0, 6, 20) { radTest<KDTree2D>(pts(n % 7), 1 + n / 7, qry(), sym::real("R", -1, 8)); }
CASEN(box2, 0, 5, 5) { boxTest2(pts(n), 1, P2(sym::real("ax", -1, 7), sym::real("ay", -1, 4)), P2(sym::real("bx", -1, 7), sym::real("by", -1, 4))); }
CASEN(box2l, 0, 1, 3) { boxTest2(pts(n), 2, P2(sym::real("ax", -1, 7), sym::real("ay", -1, 4)), P2(sym::real("bx", -1, 7), sym::real("by", -1, 4))); }
// points free: splits, ties and medians decided by the solver
static std::vector<P2> freePts(int n) { static const int A[][5][2] = {{{0, 0}, {1, 2}, {2, 1}, {9, 9}}, {{1, 0}, {1, 2}, {0, 1}, {2, 1}, {9, 9}}}; std::vector<P2> v; for (int i = 0; i < 5 && A[n][i][0] != 9; i++) v.push_back(P2(A[n][i][0], A[n][i][1])); v[0] = P2(sym::real("x0", -4, 4), v[0].Y()); v[1] = P2(v[1].X(), sym::real("y1", -4, 4)); return v; }
CASEN(nearf, 0, 1, 1) { nearTest<KDTree2D>(freePts(n), 1, P2(sym::real("qx", -4, 4), 1)); }
CASEN(knnf, 0, 1, 1) { knnTest<KDTree2D>(freePts(n), 1, P2(1, sym::real("qy", -4, 4)), 2); }
CASEN(radf, 0, 1, 1) { radTest<KDTree2D>(freePts(n), 1, P2(1, 1), sym::real("R", 0, 4)); }
CASEN(boxf, 0, 1, 1) { boxTest2(freePts(n), 1, P2(sym::real("ax", -1, 3), 0), P2(2, sym::real("by", -1, 4))); }
// space
static std::vector<P3> pts3(int n) { static const int A[][6][3] = {{{0, 0, 0}, {1, 2, 1}, {2, 1, 3}, {1, 1, 1}, {3, 0, 2}, {9}}, {{1, 1, 0}, {1, 1, 1}, {1, 1, 2}, {1, 1, 3}, {9}}, {{9}}}; std::vector<P3> v; for (int i = 0; i < 6 && A[n][i][0] != 9; i++) v.push_back(P3(A[n][i][0], A[n][i][1], A[n][i][2])); return v; }
static P3 qry3() { double x = sym::real("qx", -4, 8), y = sym::real("qy", -4, 8), z = sym::deep() ? sym::real("qz", -4, 8) : 1.5; return P3(x, y, z); }
CASEN(near3, 0, 2, 2) { nearTest<KDTree3D>(pts3(n), 1, qry3()); }
CASEN(knn3, 0, 2, 2) { knnTest<KDTree3D>(pts3(n), 1, qry3(), n == 2 ? 2 : sym::pick(1, n == 0 ? 2 : 5, "k")); }
CASEN(rad3, 0, 2, 2) { radTest<KDTree3D>(pts3(n), 1, qry3(), sym::real("R", -1, 8)); }
CASEN(box3, 0, 2, 2) { auto v = pts3(n); auto t = mk<KDTree3D>(v, 1); P3 a(sym::real("ax", -1, 4), sym::real("ay", -1, 4), sym::real("az", -1, 4)), b(sym::real("bx", -1, 4), 1, sym::real("bz", -1, 4)); auto r = t.findInBox(a, b); std::set<size_t> s(r.begin(), r.end()); sym::obs("count", r.size()); sym::check(s.size() == r.size(), "distinct"); for (size_t i = 0; i < v.size(); i++) { bool in = (v[i].X() >= a.X()) & (v[i].X() <= b.X()) & (v[i].Y() >= a.Y()) & (v[i].Y() <= b.Y()) & (v[i].Z() >= a.Z()) & (v[i].Z() <= b.Z()); sym::check(in == (s.count(i) > 0), "exactly the points in the box"); } }
CASEN(stats, 0, 6, 6) { auto v = pts(n); double a = sym::real("a", -4, 4); for (auto &p : v) p = P2(p.X() + a, p.Y()); for (int leaf = 1; leaf <= 3; leaf++) { auto t = mk<KDTree2D>(v, leaf); auto &s = t.stats(); sym::obs("nodes", s.num_nodes); sym::check(s.num_points == v.size() && (v.empty() ? s.num_nodes == 0 : s.num_nodes == 2 * s.num_leaf_nodes - 1), "node counts of a full binary tree"); sym::check((int)s.num_leaf_nodes * leaf >= (int)v.size(), "leaves hold every point"); for (size_t i = 0; i < v.size(); i++) sym::check(t.point(i).X() == v[i].X() && t.point(i).Y() == v[i].Y(), "points kept in input order"); t.clear(); sym::check(t.empty() && t.size() == 0 && !t.findNearest(P2(a, 0)).found, "cleared"); } }
CASEN(brute, 0, 4, 4) { auto v = pts(n); P2 q = qry(); auto r = FindNearestBruteForce2D(v, q); sym::obs("found", r.found); sym::check(r.found && r.index < v.size(), "found"); sym::eq(r.distance * r.distance, d2(v[r.index], q), "distance"); for (auto &p : v) sym::check(d2(v[r.index], q) <= d2(p, q), "no point is nearer"); }
CASEN(brute3, 0, 1, 1) { auto v = pts3(n); P3 q = qry3(); auto r = FindNearestBruteForce3D(v, q); sym::obs("found", r.found); sym::check(r.found && r.index < v.size(), "found"); sym::eq(r.distance * r.distance, d3(v[r.index], q), "distance"); for (auto &p : v) sym::check(d3(v[r.index], q) <= d3(p, q), "no point is nearer"); }
