// BOUNDS: Dijkstra on every directed graph on 3 vertices and on seven edge sets over 4 and 5 vertices (12 thorough) with every edge weight in [0,8]; Bellman-Ford on every directed graph on 3 vertices and four edge sets over 4 vertices with every weight in [-8,8]; Kruskal and Prim on all undirected graphs on 3 vertices and on six edge sets over 4 and 5 vertices with every weight in [-8,8]; every start and target vertex
// OUTSIDE: larger graphs, rounding, minimum spanning trees of directed graphs
#include "h.h"
#include "mml/base/Graph.h"
#include "mml/algorithms/GraphAlgorithms.h"
typedef Graph<int, Real> G;
static const size_t NO = GRAPH_NOT_FOUND;
struct Mod { int n; bool p[5][5]; double w[5][5]; std::vector<std::array<int, 2>> e; };
static const int ES[][16] = { // pairs, 9 ends
 {0, 1, 1, 2, 2, 3, 0, 2, 1, 3, 9}, {0, 1, 1, 2, 2, 3, 3, 0, 0, 2, 9}, {0, 1, 0, 2, 0, 3, 1, 2, 2, 3, 9}, {0, 1, 1, 2, 2, 0, 2, 3, 3, 4, 9}, {0, 1, 0, 2, 1, 3, 2, 3, 3, 4, 9}, {0, 1, 0, 2, 0, 3, 1, 2, 1, 3, 2, 3, 9},
 {0, 3, 3, 1, 1, 2, 0, 2, 2, 1, 9}, {0, 1, 1, 2, 2, 1, 2, 3, 3, 0, 9}, {0, 1, 2, 3, 3, 2, 1, 2, 0, 3, 9}, {0, 1, 1, 3, 3, 2, 0, 2, 2, 4, 4, 3, 9}, {0, 4, 4, 1, 1, 2, 2, 3, 0, 3, 9}, {4, 3, 3, 2, 2, 1, 1, 0, 4, 2, 2, 0, 9}};
static Mod blank(int n) { Mod m; m.n = n; for (auto &r : m.p) for (bool &b : r) b = false; return m; }
static void put(G &g, Mod &m, int i, int j, double lo, double hi, bool dir) { double w = sym::real("w", (int)m.e.size(), lo, hi); g.addEdge(i, j, w); m.p[i][j] = true; m.w[i][j] = w; if (!dir) m.p[j][i] = true, m.w[j][i] = w; m.e.push_back({i, j}); }
static G all(Mod &m, int n, bool dir, double lo, double hi) { m = blank(n); G g(n, dir ? G::Type::Directed : G::Type::Undirected); for (int i = 0; i < n; i++) for (int j = dir ? 0 : i + 1; j < n; j++) if (i != j && sym::flag("edge")) put(g, m, i, j, lo, hi, dir); return g; }
static G set(Mod &m, int k, bool dir, double lo, double hi, int extra = 0) { int n = 0; for (int i = 0; ES[k][i] != 9; i++) if (ES[k][i] >= n) n = ES[k][i] + 1; n += extra; m = blank(n); G g(n, dir ? G::Type::Directed : G::Type::Undirected); for (int i = 0; ES[k][i] != 9; i += 2) put(g, m, ES[k][i], ES[k][i + 1], lo, hi, dir); return g; }
// every simple path from u: f(end, weight, length)
template <class F> static void paths(const Mod &m, int u, std::vector<int> &on, double w, F f) { f(u, w, on.size()); for (int v = 0; v < m.n; v++) if (m.p[u][v] && std::find(on.begin(), on.end(), v) == on.end()) { on.push_back(v); paths(m, v, on, w + m.w[u][v], f); on.pop_back(); } }
template <class F> static void paths(const Mod &m, int s, F f) { std::vector<int> on{s}; paths(m, s, on, 0, f); }
static void tree(const Mod &m, int s, const TraversalResult &r) { std::vector<int> reach(m.n, 0); paths(m, s, [&](int v, double w, size_t) { reach[v] = 1; sym::check(r.distance[v] <= w + 1e-9, "no path is shorter"); }); size_t cnt = 0; sym::check(r.distance[s] == 0 && r.parent[s] == NO, "start"); for (int v = 0; v < m.n; v++) { cnt += reach[v]; if (!reach[v]) sym::check(r.distance[v] > 1e300 && r.parent[v] == NO, "unreachable"); else if (v != s) { size_t p = r.parent[v]; sym::check(p != NO && m.p[p][v], "parent is a neighbour"); if (p != NO) sym::eq(r.distance[v], r.distance[p] + m.w[p][v], "distance through the parent"); auto q = ReconstructPath(r.parent, s, v); double w = 0; for (size_t i = 1; i < q.size(); i++) { sym::check(m.p[q[i - 1]][q[i]], "reconstructed path follows edges"); w += m.w[q[i - 1]][q[i]]; } sym::check(q.size() > 1 && q.front() == (size_t)s && q.back() == (size_t)v, "reconstructed path ends"); sym::eq(w, r.distance[v], "reconstructed path weight"); } } sym::check(r.nodesVisited >= cnt, "vertices visited"); }
static void dij(G &g, Mod &m, int s) { auto r = Dijkstra(g, s); sym::obs("d", r.distance[s]); tree(m, s, r); }
static void dijp(G &g, Mod &m, int s, int t) { PathResult r = DijkstraPath(g, s, t); bool reach = false; paths(m, s, [&](int v, double w, size_t) { if (v == t) { reach = true; sym::check(r.totalWeight <= w + 1e-9, "no path is shorter"); } }); sym::obs("f", r.found); sym::check(r.found == reach, "found iff reachable"); if (!reach) { sym::check(r.path.empty(), "no path"); return; } double w = 0; sym::check(r.path.front() == (size_t)s && r.path.back() == (size_t)t, "path ends"); for (size_t i = 1; i < r.path.size(); i++) { sym::check(m.p[r.path[i - 1]][r.path[i]], "path follows edges"); w += m.w[r.path[i - 1]][r.path[i]]; } sym::eq(w, r.totalWeight, "path weight"); }
CASE(dij3) { Mod m; G g = all(m, 3, true, 0, 8); dij(g, m, 0); }
CASE(dijp3) { Mod m; G g = all(m, 3, true, 0, 8); dijp(g, m, 0, sym::pick(0, 2, "t")); }
CASEN(dij, 0, 6, 11) { Mod m; G g = set(m, n, n >= 6, 0, 8, n == 6); dij(g, m, sym::pick(0, n >= 6 ? 0 : 1, "s")); }
CASEN(dijp, 0, 6, 11) { Mod m; G g = set(m, n, n >= 6, 0, 8, n == 6); dijp(g, m, 0, m.n - 1); }
// ---- Bellman-Ford
static void bf(G &g, Mod &m, int s) { auto r = BellmanFord(g, s); sym::obs("v", r.parent.size()); bool neg = false; std::vector<int> on{s}; std::vector<int> reach(m.n, 0); paths(m, s, [&](int v, double, size_t) { reach[v] = 1; }); for (int v = 0; v < m.n; v++) if (reach[v]) paths(m, v, [&](int u, double w, size_t len) { if (u != v && m.p[u][v]) neg = neg | (w + m.w[u][v] < 0); }); sym::check(HasNegativeCycle(g, s) == neg, "negative cycle reported iff there is one"); sym::check(r.parent.empty() == neg, "empty result iff negative cycle"); if (!r.parent.empty()) { tree(m, s, r); size_t c = 0; for (int x : reach) c += x; sym::check(r.nodesVisited == c, "vertices reached"); } }
CASE(bf3) { Mod m; G g = all(m, 3, true, -8, 8); bf(g, m, 0); }
CASEN(bf, 0, 4, 7) { static const int W[] = {6, 8, 0, 11, 7, 9, 10, 1}; Mod m; G g = set(m, W[n], true, -8, 8, n == 0); bf(g, m, n == 3 ? 4 : 0); }
CASE(bfu) { Mod m = blank(3); G g(3); put(g, m, 0, 1, -8, 8, false); put(g, m, 1, 2, -8, 8, false); sym::obs("x", m.w[0][1]); bool neg = (m.w[0][1] < 0) | (m.w[1][2] < 0); sym::check(HasNegativeCycle(g, 0) == neg, "a negative undirected edge is a negative cycle"); }
// ---- spanning trees
static int find(std::vector<int> &c, int x) { while (c[x] != x) x = c[x]; return x; }
static void mst(G &g, Mod &m, int start) { auto k = Kruskal(g), p = Prim(g, start); sym::obs("k", k.edges.size()); std::vector<int> comp(m.n); for (int i = 0; i < m.n; i++) comp[i] = i; int parts = m.n; for (auto &e : m.e) { int a = find(comp, e[0]), b = find(comp, e[1]); if (a != b) comp[a] = b, parts--; } bool conn = parts == 1; sym::check(k.isComplete == conn && p.isComplete == conn, "complete iff connected"); for (int which = 0; which < 2; which++) { auto &r = which ? p : k; std::vector<int> c(m.n); for (int i = 0; i < m.n; i++) c[i] = i; double w = 0; for (auto &[u, v, x] : r.edges) { sym::check(m.p[u][v], "tree edges are edges"); sym::check(x == m.w[u][v], "tree edge weights"); int a = find(c, u), b = find(c, v); sym::check(a != b, "no cycle"); c[a] = b; w += x; } sym::eq(w, r.totalWeight, "total weight"); if (!which) sym::check((int)r.edges.size() == m.n - parts, "forest size"); }
  if (!conn) { return; } int E = m.e.size(); for (int s = 0; s < (1 << E); s++) if (__builtin_popcount(s) == m.n - 1) { std::vector<int> c(m.n); for (int i = 0; i < m.n; i++) c[i] = i; bool ok = true; double w = 0; for (int i = 0; i < E; i++) if (s >> i & 1) { int a = find(c, m.e[i][0]), b = find(c, m.e[i][1]); if (a == b) ok = false; c[a] = b; w += m.w[m.e[i][0]][m.e[i][1]]; } if (ok) sym::check(k.totalWeight <= w + 1e-9 && p.totalWeight <= w + 1e-9, "no spanning tree is lighter"); } }
CASE(mst3) { Mod m; G g = all(m, 3, false, -8, 8); mst(g, m, sym::pick(0, 3, "start")); }
CASEN(mst, 0, 4, 5) { Mod m; G g = set(m, n, false, -8, 8); mst(g, m, n % 3); }
CASE(mstdis) { Mod m = blank(5); G g(5); put(g, m, 0, 1, -8, 8, false); put(g, m, 2, 3, -8, 8, false); put(g, m, 3, 4, -8, 8, false); put(g, m, 2, 4, -8, 8, false); auto k = Kruskal(g); sym::obs("k", k.edges.size()); mst(g, m, 0); double a = m.w[2][3], b = m.w[3][4], c = m.w[2][4], mx = a > b ? a : b; mx = mx > c ? mx : c; sym::eq(k.totalWeight, m.w[0][1] + a + b + c - mx, "minimum spanning forest"); }
CASE(mst01) { G g(0), h(1); sym::obs("x", sym::real("x", 0, 1)); sym::check(Kruskal(g).isComplete && Prim(g).isComplete && Kruskal(h).isComplete && Prim(h).isComplete && Kruskal(h).edges.empty() && Prim(h).edges.empty(), "nothing to span"); }
