// BOUNDS: every directed graph on 3 vertices (loops allowed in the structure and matrix cases) and every undirected graph on 4 vertices, with every edge weight in [-4,4]; directed graphs on 4 vertices over six to nine free edges (all twelve thorough); histories of 3 (4 thorough) insertions and removals with every pair of endpoints; every start vertex; every visitor stopping point; page rank with every damping factor in [0,1] and up to two iterations
// OUTSIDE: larger graphs, vertex payloads other than numbers, the power iteration of EigenvectorCentrality beyond its normalisation, Laplacian eigenvalues (see the eigenvalue properties), toString
#include "h.h"
#include "mml/base/Graph.h"
#include "mml/algorithms/GraphAlgorithms.h"
#include "mml/algorithms/GraphSpectral.h"
#include <set>
typedef Graph<int, Real> G;
static const size_t NO = GRAPH_NOT_FOUND;
struct Mod { int n; bool dir; bool p[6][6]; double w[6][6]; int hop[6][6]; };
static Mod none(int n, bool dir) { Mod m; m.n = n; m.dir = dir; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m.p[i][j] = 0, m.w[i][j] = 0; return m; }
static void hops(Mod &m) { for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) m.hop[i][j] = i == j ? 0 : m.p[i][j] ? 1 : 99; for (int k = 0; k < m.n; k++) for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) if (m.hop[i][k] + m.hop[k][j] < m.hop[i][j]) m.hop[i][j] = m.hop[i][k] + m.hop[k][j]; }
static G build(Mod &m, int freeEdges, bool loops, double lo, double hi, bool weights = true) { G g(m.n, m.dir ? G::Type::Directed : G::Type::Undirected, loops); int k = 0, id = 0; for (int s = 1; s <= m.n; s++) for (int i = 0; i < m.n; i++) { int j = (i + s) % m.n; if (i == j && !loops) continue; if (!m.dir && i > j && i != j) continue; if (!m.dir && s != m.n && (j - i + m.n) % m.n != s) continue; id++; bool on = k < freeEdges ? sym::flag("e") : id % 3 == 0; k++; if (!on) continue; double w = weights ? sym::real("w", id, lo, hi) : 1; g.addEdge(i, j, w); m.p[i][j] = 1; m.w[i][j] = w; if (!m.dir) m.p[j][i] = 1, m.w[j][i] = w; } hops(m); return g; }
static Mod shape(int n) { return n == 0 ? none(3, true) : n == 1 ? none(4, false) : n == 2 ? none(4, true) : none(5, false); }
static int freeOf(int n) { return n == 2 ? (sym::deep() ? 12 : 6) : n == 3 ? 10 : 99; }
// ---- structure
CASEN(ops, 0, 3, 3) { bool dir = n & 1, loops = n & 2; int N = 3; G g(N, dir ? G::Type::Directed : G::Type::Undirected, loops); Mod m = none(N, dir); size_t edges = 0; int len = sym::deep() ? 4 : 3; double w0 = sym::real("x", -4, 4); sym::obs("x", w0); for (int s = 0; s < len; s++) { int u = s ? sym::pick(0, 2, "u") : 0, v = sym::pick(0, 2, "v"); if (s < 2 || sym::flag("e")) { double w = sym::real("w", s, -4, 4); bool bad = (u == v && !loops) || m.p[u][v]; sym::check(sym_throws<std::invalid_argument>([&] { g.addEdge(u, v, w); }) == (int)bad, "loops and repeated edges refused"); if (!bad) { edges++; m.p[u][v] = 1; m.w[u][v] = w; if (!dir) m.p[v][u] = 1, m.w[v][u] = w; } } else { bool had = m.p[u][v]; sym::check(g.removeEdge(u, v) == had, "removal reports presence"); if (had) { edges--; m.p[u][v] = 0; if (!dir) m.p[v][u] = 0; } } sym::check(g.numEdges() == edges, "edge count"); for (int i = 0; i < N; i++) { size_t out = 0, in = 0; for (int j = 0; j < N; j++) { sym::check(g.hasEdge(i, j) == m.p[i][j], "edge presence"); if (m.p[i][j]) sym::check(g.edgeWeight(i, j) == m.w[i][j], "edge weight"); else sym::check(THROWS(std::invalid_argument, g.edgeWeight(i, j)), "no weight without an edge"); out += m.p[i][j]; in += m.p[j][i]; } sym::check(g.degree(i) == out && g.outDegree(i) == out && g.inDegree(i) == in && g.neighbors(i).size() == out, "degrees"); } } sym::check(g.isDirected() == dir && g.isUndirected() != dir && g.allowsSelfLoops() == loops && g.numVertices() == 3u, "flags"); }
CASE(range) { G g(3); g.addEdge(0, 1, 2); size_t big = (size_t)sym::integer("u", 3, 2147483647), u = big, v = big; if (sym::flag("v in range")) v = sym::pick(0, 2, "v"); else if (sym::flag("u in range")) u = sym::pick(0, 2, "u"); sym::check(THROWS(std::out_of_range, g.addEdge(u, v, 1)) && THROWS(std::out_of_range, g.edgeWeight(u, v)) && !g.hasEdge(u, v) && !g.removeEdge(u, v), "endpoints out of range refused"); sym::obs("e", g.numEdges()); if (u == big) { sym::check(THROWS(std::out_of_range, g.degree(u)) && THROWS(std::out_of_range, g.inDegree(u)) && THROWS(std::out_of_range, g.neighbors(u)) && THROWS(std::out_of_range, g.vertexData(u)), "vertex out of range refused"); sym::check(BFS(g, u).nodesVisited == 0 && DFS(g, u).nodesVisited == 0 && Dijkstra(g, u).nodesVisited == 0 && BellmanFord(g, u).nodesVisited == 0 && !HasNegativeCycle(g, u) && !DijkstraPath(g, u, 0).found && !DijkstraPath(g, 0, u).found && !ShortestPathUnweighted(g, u, 0).found && !ShortestPathUnweighted(g, 0, u).found, "nothing reachable from a vertex that is not there"); } sym::check(g.numEdges() == 1 && g.edgeWeight(0, 1) == 2, "graph unchanged"); }
CASE(verts) { int k = sym::pick(0, 4, "k"); G g; for (int i = 0; i < k; i++) { int d = sym::integer(("d" + std::to_string(i)).c_str(), -2147483647 - 1, 2147483647); sym::check(g.addVertex(d) == (size_t)i && g.vertexData(i) == d, "vertex index and data"); } sym::obs("k", k); sym::check(g.numVertices() == (size_t)k && g.isEmpty() == (k == 0) && g.numEdges() == 0, "vertex count"); for (int i = 0; i < k; i++) sym::check(g.degree(i) == 0, "new vertices are isolated"); G h(k); for (int i = 0; i < k; i++) sym::check(h.vertexData(i) == i, "default data"); g.clear(); sym::check(g.isEmpty() && g.numVertices() == 0 && g.numEdges() == 0, "cleared"); }
CASEN(mats, 0, 2, 3) { Mod m = shape(n == 2 ? 3 : n == 3 ? 2 : n); if (n == 2) m = none(3, false); G g = build(m, n == 3 ? 8 : 99, n != 1, -4, 4); Matrix<Real> A = g.toAdjacencyMatrix(), D = g.toDegreeMatrix(), L = g.toLaplacianMatrix(); sym::obs("a", A(0, 1)); auto seq = LaplacianDegreeSequence(g); sym::check((int)seq.size() == m.n, "degree sequence length"); for (int i = 0; i + 1 < m.n; i++) sym::check(seq[i] <= seq[i + 1], "degree sequence sorted"); for (int i = 0; i < m.n; i++) { double row = 0, lap = 0; for (int j = 0; j < m.n; j++) { row += m.w[i][j]; lap += L(i, j); sym::eq(A(i, j), m.w[i][j], "adjacency matrix"); sym::eq(L(i, j), D(i, j) - A(i, j), "L = D - A"); if (i != j) sym::check(D(i, j) == 0, "degree matrix diagonal"); } sym::eq(D(i, i), row, "weighted degree"); sym::eq(lap, 0, "Laplacian rows sum to zero"); } }
CASEN(norml, 0, 1, 2) { Mod m = shape(n == 1 ? 1 : n); G g = build(m, n == 1 ? 5 : 8, false, 0.25, 4); Matrix<Real> A = g.toAdjacencyMatrix(), L = g.toNormalizedLaplacian(); sym::obs("a", A(0, 1)); for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) { double di = 0, dj = 0; for (int k = 0; k < m.n; k++) di += m.w[i][k], dj += m.w[j][k]; if (i == j) sym::eq(L(i, j), 1, "unit diagonal"); else if (!m.p[i][j]) sym::eq(L(i, j), 0, "no edge no entry"); else if (di > 0 && dj > 0) { sym::eq(L(i, j) * L(i, j) * di * dj, m.w[i][j] * m.w[i][j], "scaled by both degrees", 1e-6); sym::check(L(i, j) <= 0, "off-diagonal sign"); } } }
CASEN(make, 0, 4, 6) { sym::obs("n", sym::real("x", 0, 1)); G p = createPathGraph<>(n), c = createCycleGraph<>(n), k = createCompleteGraph<>(n), s = createStarGraph<>(n); size_t N = n; sym::check(p.numVertices() == N && c.numVertices() == N && k.numVertices() == N && s.numVertices() == N, "vertex counts"); sym::check(p.numEdges() == (n ? N - 1 : 0) && c.numEdges() == (n > 2 ? N : n ? N - 1 : 0) && k.numEdges() == N * (n ? N - 1 : 0) / 2 && s.numEdges() == (n ? N - 1 : 0), "edge counts"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int d = i - j; bool adj = d == 1 || d == -1; sym::check(p.hasEdge(i, j) == adj, "path"); sym::check(c.hasEdge(i, j) == (adj || (n > 2 && (d == n - 1 || d == 1 - n))), "cycle"); sym::check(k.hasEdge(i, j) == (d != 0), "complete"); sym::check(s.hasEdge(i, j) == (d != 0 && (i == 0 || j == 0)), "star"); } for (int r = 0; r <= 3; r++) { G q = createGridGraph<>(r, n); sym::check(q.numVertices() == N * r, "grid vertices"); for (int a = 0; a < r * n; a++) for (int b = 0; b < r * n; b++) { int dr = a / n - b / n, dc = a % n - b % n; sym::check(q.hasEdge(a, b) == (dr * dr + dc * dc == 1), "grid"); } } }
CASEN(wtd, 0, 1, 1) { Mod m = shape(n); G g = build(m, 99, false, -4, 4); sym::obs("n", g.numEdges()); int N = m.n; bool wt = false; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (m.p[i][j] && (m.w[i][j] - 1 > 1e-10 || 1 - m.w[i][j] > 1e-10)) wt = true; sym::check(g.isWeighted() == wt, "weighted means some weight is not one"); }
// ---- traversal
CASEN(bfs, 0, 2, 3) { Mod m = shape(n); G g = build(m, freeOf(n), false, -4, 4, n < 2); int s = sym::pick(0, m.n - 1, "s"); auto r = BFS(g, s); sym::obs("v", r.nodesVisited); size_t cnt = 0; std::vector<int> seen(m.n, 0); for (size_t i = 0; i < r.visitOrder.size(); i++) { seen[r.visitOrder[i]]++; if (i) sym::check(r.distance[r.visitOrder[i - 1]] <= r.distance[r.visitOrder[i]], "visited by distance"); } for (int v = 0; v < m.n; v++) { bool in = m.hop[s][v] < 99; cnt += in; sym::check(seen[v] == (in ? 1 : 0), "every reachable vertex once"); if (in) sym::check(r.distance[v] == m.hop[s][v], "distance in hops"); else sym::check(r.distance[v] > 1e300 && r.parent[v] == NO, "unreachable"); if (v == s) sym::check(r.parent[v] == NO, "start has no parent"); else if (in) sym::check(r.parent[v] != NO && m.p[r.parent[v]][v] && m.hop[s][r.parent[v]] + 1 == m.hop[s][v], "parent on a shortest path"); PathResult p = ShortestPathUnweighted(g, s, v); sym::check(p.found == in, "path found iff reachable"); if (in) { sym::check(p.totalWeight == m.hop[s][v] && (int)p.path.size() == m.hop[s][v] + 1 && p.path.front() == (size_t)s && p.path.back() == (size_t)v, "shortest path ends and length"); for (size_t i = 1; i < p.path.size(); i++) sym::check(m.p[p.path[i - 1]][p.path[i]], "path follows edges"); } auto q = ReconstructPath(r.parent, s, v); sym::check(q.size() == (in ? (size_t)m.hop[s][v] + 1 : 0), "reconstructed path"); } sym::check(r.nodesVisited == cnt && r.visitOrder.size() == cnt && r.visitOrder[0] == (size_t)s, "visit count"); size_t stop = sym::pick(1, m.n, "stop"), calls = 0; std::vector<size_t> ord; BFSVisit(g, s, [&](size_t u) { ord.push_back(u); return ++calls < stop; }); sym::check(calls == (stop < cnt ? stop : cnt), "visitor can stop"); for (size_t i = 0; i < calls; i++) sym::check(ord[i] == r.visitOrder[i], "visitor sees the same order"); }
static void rec(const G &g, size_t u, std::vector<size_t> &o, std::vector<int> &seen) { seen[u] = 1; o.push_back(u); for (auto &e : g.neighbors(u)) if (!seen[e.to]) rec(g, e.to, o, seen); }
CASEN(dfs, 0, 2, 3) { Mod m = shape(n); G g = build(m, freeOf(n), false, -4, 4, n < 2); int s = sym::pick(0, m.n - 1, "s"); auto r = DFS(g, s); sym::obs("v", r.nodesVisited); std::vector<size_t> o; std::vector<int> seen(m.n, 0); rec(g, s, o, seen); sym::check(r.visitOrder == o && r.nodesVisited == o.size(), "recursive preorder"); std::vector<int> pos(m.n, 99); for (size_t i = 0; i < r.visitOrder.size(); i++) pos[r.visitOrder[i]] = i; for (int v = 0; v < m.n; v++) { if (v == s) sym::check(r.parent[v] == NO && r.distance[v] == 0, "start"); else if (seen[v]) sym::check(r.parent[v] != NO && m.p[r.parent[v]][v] && pos[r.parent[v]] < pos[v] && r.distance[v] == r.distance[r.parent[v]] + 1, "parents form a tree of edges"); else sym::check(r.parent[v] == NO && r.distance[v] > 1e300, "unreachable"); } size_t stop = sym::pick(1, m.n, "stop"), calls = 0; std::vector<size_t> ord; DFSVisit(g, s, [&](size_t u) { ord.push_back(u); return ++calls < stop; }); sym::check(calls == (stop < o.size() ? stop : o.size()), "visitor can stop"); for (size_t i = 0; i < calls; i++) sym::check(ord[i] == o[i], "visitor sees the same order"); }
CASEN(comp, 0, 1, 2) { Mod m = n == 0 ? none(3, false) : n == 1 ? none(4, false) : none(5, false); G g = build(m, 99, false, -4, 4, n < 1); auto c = ConnectedComponents(g); sym::obs("c", c.numComponents); sym::check(c.components.size() == c.numComponents && c.componentId.size() == (size_t)m.n, "sizes"); size_t total = 0; for (size_t k = 0; k < c.components.size(); k++) { total += c.components[k].size(); sym::check(!c.components[k].empty(), "no empty component"); for (size_t v : c.components[k]) sym::check(c.componentId[v] == k, "lists agree with ids"); } sym::check(total == (size_t)m.n, "components partition the vertices"); bool conn = true; for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) { bool r = m.hop[i][j] < 99; conn = conn && r; sym::check((c.componentId[i] == c.componentId[j]) == r, "same component iff connected"); } sym::check(IsConnected(g) == conn && IsConnectedSpectral(g) == conn && (c.numComponents == 1) == conn, "connected"); }
CASEN(topo, 0, 1, 1) { Mod m = n == 0 ? none(3, true) : none(4, true); G g = build(m, n ? (sym::deep() ? 12 : 9) : 99, n == 0, -4, 4, n < 1); auto t = TopologicalSort(g); sym::obs("s", t.order.size()); bool cyc = false; for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) if (m.p[i][j] && m.hop[j][i] < 99) cyc = true; sym::check(t.isDAG == !cyc && IsDAG(g) == !cyc, "acyclic"); if (cyc) { sym::check(t.order.empty(), "no order for a cycle"); return; } std::vector<int> pos(m.n, -1); sym::check(t.order.size() == (size_t)m.n, "order covers all vertices"); for (size_t i = 0; i < t.order.size(); i++) pos[t.order[i]] = i; for (int i = 0; i < m.n; i++) { sym::check(pos[i] >= 0, "order is a permutation"); for (int j = 0; j < m.n; j++) if (m.p[i][j]) sym::check(pos[i] < pos[j], "edges go forward"); } }
// ---- measures
CASEN(meas, 0, 1, 2) { Mod m = n == 0 ? none(4, false) : n == 1 ? none(3, true) : none(5, false); G g = build(m, 99, false, 0.25, 4, n < 1); int N = m.n; auto dc = DegreeCentrality(g), cc = ClosenessCentrality(g), bc = BetweennessCentrality(g, false), bn = BetweennessCentrality(g, true); sym::obs("d", dc[0]); size_t e = 0; double maxh = 0, tot = 0; int cnt = 0; for (int i = 0; i < N; i++) { int deg = 0, reach = 0, sum = 0; for (int j = 0; j < N; j++) { deg += m.p[i][j]; if (m.p[i][j]) e++; if (j != i && m.hop[i][j] < 99) reach++, sum += m.hop[i][j]; if (m.hop[i][j] > maxh) maxh = m.hop[i][j]; if (i != j && m.hop[i][j] < 99) tot += m.hop[i][j], cnt++; } sym::eq(dc[i] * (N - 1), deg, "degree centrality"); if (reach == N - 1) sym::eq(cc[i] * sum, N - 1, "closeness centrality"); else sym::check(cc[i] >= 0 && cc[i] <= 1, "closeness range"); } if (!m.dir) e /= 2; sym::eq(GraphDensity(g) * (m.dir ? N * (N - 1) : N * (N - 1) / 2), (double)e, "density"); double d = GraphDiameter(g); sym::check(maxh >= 99 ? d > 1e300 : d == maxh, "diameter"); sym::eq(AveragePathLength(g) * (cnt ? cnt : 1), tot, "average path length");
  for (int v = 0; v < N; v++) { double b = 0; for (int s = 0; s < N; s++) for (int t = 0; t < N; t++) if (s != t && s != v && t != v && m.hop[s][t] < 99) { double sig[6], via[6]; for (int pass = 0; pass < 2; pass++) { double *c = pass ? via : sig; for (int u = 0; u < N; u++) c[u] = u == s; for (int h = 1; h <= m.hop[s][t]; h++) for (int u = 0; u < N; u++) if (m.hop[s][u] == h) { c[u] = 0; for (int x = 0; x < N; x++) if (m.p[x][u] && m.hop[s][x] == h - 1) c[u] += c[x]; } } double thru = 0; if (m.hop[s][v] + m.hop[v][t] == m.hop[s][t]) { double c2[6]; for (int u = 0; u < N; u++) c2[u] = u == v; for (int h = 1; h <= m.hop[v][t]; h++) for (int u = 0; u < N; u++) if (m.hop[v][u] == h) { c2[u] = 0; for (int x = 0; x < N; x++) if (m.p[x][u] && m.hop[v][x] == h - 1) c2[u] += c2[x]; } thru = sig[v] * c2[t]; } b += thru / sig[t]; } if (!m.dir) b /= 2; sym::eq(bc[v], b, "betweenness centrality"); sym::eq(bn[v] * ((N - 1) * (N - 2)), 2 * b, "normalised betweenness"); }
  if (!m.dir) { double tc = 0; int vv = 0; for (int i = 0; i < N; i++) { int k = 0, tr = 0; for (int j = 0; j < N; j++) { k += m.p[i][j]; for (int l = j + 1; l < N; l++) if (m.p[i][j] && m.p[i][l] && m.p[j][l]) tr++; } if (k >= 2) tc += tr / (k * (k - 1) / 2.0), vv++; } sym::eq(AverageClusteringCoefficient(g) * (vv ? vv : 1), tc, "clustering coefficient"); } }
CASEN(rank, 0, 1, 2) { Mod m = n == 0 ? none(3, true) : none(3, false); int it = n == 2 ? 3 : 2; G g = build(m, 99, false, 1, 1, false); double df = sym::real("d", 0, 1); auto r = PageRank(g, df, it); sym::obs("r", r[0]); double s = 0; for (int i = 0; i < m.n; i++) { s += r[i]; sym::check(r[i] >= -1e-12, "scores are not negative"); } sym::eq(s, 1, "scores sum to one"); auto one = PageRank(g, df, 1); for (int v = 0; v < m.n; v++) { double x = (1 - df) / m.n; for (int u = 0; u < m.n; u++) { int od = 0; for (int k = 0; k < m.n; k++) od += m.p[u][k]; if (!od) x += df / m.n / m.n; else if (m.p[u][v]) x += df / m.n / od; } sym::eq(one[v], x, "one step of the random surfer"); } }
static void bound(const G &g, const std::vector<double> &x) { int N = g.numVertices(); double b = AlgebraicConnectivityBound(g); sym::obs("b", b); Matrix<Real> L = g.toLaplacianMatrix(); double q = 0, s2 = 0; for (int i = 0; i < N; i++) { s2 += x[i] * x[i]; for (int j = 0; j < N; j++) q += x[i] * L(i, j) * x[j]; } sym::check(b >= 0, "bound not negative"); sym::check(b * s2 <= q + 1e-9, "lower bound on the algebraic connectivity"); }
CASEN(fied, 0, 2, 3) { G g = n == 0 ? createPathGraph<>(3) : n == 1 ? createStarGraph<>(4) : n == 2 ? G(6) : createCycleGraph<>(5); if (n == 2) { static const int E[7][2] = {{0, 1}, {1, 2}, {0, 2}, {2, 3}, {3, 4}, {4, 5}, {3, 5}}; for (auto &e : E) g.addEdge(e[0], e[1], 1); double a = sym::real("a", -1, 1), b = sym::real("b", -1, 1); bound(g, {a, a, b, -b, -a, -a}); return; } std::vector<double> x; double s = 0; for (size_t i = 0; i + 1 < g.numVertices(); i++) x.push_back(sym::real("x", i, -1, 1)), s += x[i]; x.push_back(-s); bound(g, x); }
CASE(fiedw) { G g(2); double w = sym::real("w", 0.1, 4), a = sym::real("a", -1, 1); g.addEdge(0, 1, w); bound(g, {a, -a}); }
CASE(norm2) { Mod m = none(3, false); G g = build(m, 99, false, 0.25, 4); auto c = EigenvectorCentrality(g, 1); double s = 0; for (double x : c) { s += x * x; sym::check(x >= 0, "entries not negative"); } sym::obs("s", s); if (g.numEdges()) sym::eq(s, 1, "unit length", 1e-6); }
