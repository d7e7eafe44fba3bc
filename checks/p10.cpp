// P10: directed graphs: every operation history keeps a consistent graph; orderings, components,
// contraction, condensation and shortest paths are right on every small graph.
#include "lib/Utils/Graph/Graph.h"
#include "mc.h"
using namespace mlir::heir::graph;
using mlir::succeeded;
using mlir::failed;
using mc::cat;

template <class V> struct Name;
template <> struct Name<int> { static int v(int i) { return 10 - 3 * i; } };  // vertex order differs from index order
template <> struct Name<std::string> { static std::string v(int i) { return std::string(1, (char)('d' - i % 2 * 2 + i)); } };

struct Model {
  int n; std::vector<bool> in; std::vector<std::vector<bool>> e;
  Model(int n) : n(n), in(n), e(n, std::vector<bool>(n)) {}
  std::string str() const { std::string s; for (int i = 0; i < n; i++) { s += in[i] ? 'v' : '.'; for (int j = 0; j < n; j++) s += e[i][j] ? '1' : '0'; } return s; }
};
template <class V> static std::set<V> names(const std::vector<int>& v) { std::set<V> r; for (int i : v) r.insert(Name<V>::v(i)); return r; }

// Everything the graph reports agrees with the model.
template <class V> static void compare(const std::string& id, Graph<V>& g, const Model& m, bool edgesQuery = true) {
  auto N = [](int i) { return Name<V>::v(i); };
  std::set<V> vs, srcs, snks; std::set<std::pair<V, V>> es;
  for (int i = 0; i < m.n; i++) {
    if (g.contains(N(i)) != m.in[i]) { mc::violate("history:contains", cat(id, ": vertex ", i)); return; }
    std::vector<V> out, in;
    for (int j = 0; j < m.n; j++) { if (m.e[i][j]) out.push_back(N(j)), es.insert({N(i), N(j)}); if (m.e[j][i]) in.push_back(N(j)); }
    std::sort(out.begin(), out.end()); std::sort(in.begin(), in.end());
    for (int j = 0; j < m.n; j++) if (g.hasEdge(N(i), N(j)) != m.e[i][j]) { mc::violate("history:hasEdge", cat(id, ": edge ", i, "->", j)); return; }
    if (g.edgesOutOf(N(i)) != out || g.getOutDegree(N(i)) != out.size()) { mc::violate("history:out", cat(id, ": edges out of ", i)); return; }
    if (g.edgesInto(N(i)) != in || g.getInDegree(N(i)) != in.size()) { mc::violate("history:in", cat(id, ": edges into ", i)); return; }
    if (m.in[i]) { vs.insert(N(i)); if (in.empty()) srcs.insert(N(i)); if (out.empty()) snks.insert(N(i)); }
  }
  if (g.getVertices() != vs || g.empty() != vs.empty()) mc::violate("history:vertices", id);
  if (g.getSources() != srcs) mc::violate("history:sources", id);
  if (g.getSinks() != snks) mc::violate("history:sinks", id);
  if (edgesQuery && g.getEdges() != es) mc::violate("history:edges", id + ": the edge set is stale or wrong");
  mc::step();
}

template <class V> static void apply(const std::string& id, Graph<V>& g, Model& m, int op, int n) {
  auto N = [](int i) { return Name<V>::v(i); };
  if (op < n) { g.addVertex(N(op)); m.in[op] = true; return; }
  op -= n;
  int i = op % (n * n) / n, j = op % n;
  if (op < n * n) {
    bool ok = m.in[i] && m.in[j];
    if (g.addEdge(N(i), N(j)) != ok) mc::violate("history:addEdge", id + ": wrong answer");
    if (ok) m.e[i][j] = true;
    return;
  }
  if (i == j) return;
  std::vector<std::pair<V, V>> calls;
  bool ok = m.e[i][j], intact = true;
  auto before = m;
  bool got = g.contractEdge(N(i), N(j), [&](V& a, const V& b) { calls.push_back({a, b}); intact &= g.hasEdge(N(i), N(j)); });
  if (got != ok) mc::violate("contract", id + ": wrong answer");
  if (calls.size() != (ok ? 1u : 0u) || (ok && calls[0] != std::make_pair(N(i), N(j))) || !intact) mc::violate("contract:merge", id + ": merge callback");
  if (!ok) return;
  for (int k = 0; k < n; k++) {
    if (k != i && k != j) { if (m.e[j][k]) m.e[i][k] = true; if (m.e[k][j]) m.e[k][i] = true; }
  }
  for (int k = 0; k < n; k++) m.e[j][k] = m.e[k][j] = false;
  m.in[j] = false;
}

static std::vector<std::vector<bool>> closure(const Model& m) {
  auto r = m.e;
  for (int k = 0; k < m.n; k++) for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) if (r[i][k] && r[k][j]) r[i][j] = true;
  return r;
}

template <class V> static Graph<V> build(const Model& m) {
  Graph<V> g;
  for (int i = 0; i < m.n; i++) g.addVertex(Name<V>::v(i));
  for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) if (m.e[i][j]) g.addEdge(Name<V>::v(i), Name<V>::v(j), 1 + i + j);
  return g;
}

template <class V> static void algorithms(const std::string& id, const Model& m, bool paths) {
  auto N = [](int i) { return Name<V>::v(i); };
  int n = m.n;
  std::map<V, int> idx;
  for (int i = 0; i < n; i++) idx[N(i)] = i;
  Graph<V> g = build<V>(m);
  auto reach = closure(m);
  bool acyclic = true;
  for (int i = 0; i < n; i++) acyclic &= !reach[i][i];
  mc::eval();
  mc::doing("topologically sorting");
  auto t = g.topologicalSort();
  if (succeeded(t) != acyclic) { mc::violate("topological", id + (acyclic ? ": refused on an acyclic graph" : ": accepted a cycle")); return; }
  std::vector<int> len(n, 0);
  if (acyclic) {
    std::map<V, int> at;
    for (size_t i = 0; i < t->size(); i++) at[(*t)[i]] = (int)i;
    bool ok = (int)t->size() == n && (int)at.size() == n;
    for (int i = 0; ok && i < n; i++) for (int j = 0; j < n; j++) if (m.e[i][j] && at[N(i)] >= at[N(j)]) ok = false;
    if (!ok) mc::violate("topological", id + ": not a topological order");
    for (int round = 0; round < n; round++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (m.e[i][j]) len[i] = std::max(len[i], len[j] + 1);
    int longest = 0;
    for (int l : len) longest = std::max(longest, l);
    mc::doing("sorting by levels");
    auto lv = g.sortGraphByLevels();
    if (failed(lv)) { mc::violate("levels", id + ": refused"); return; }
    std::map<V, int> lev; size_t total = 0;
    for (size_t k = 0; k < lv->size(); k++) for (auto& v : (*lv)[k]) { lev[v] = (int)k; total++; }
    ok = total == (size_t)n && (int)lev.size() == n && (int)lv->size() == longest + 1;
    for (int i = 0; ok && i < n; i++) for (int j = 0; j < n; j++) if (m.e[i][j] && lev[N(i)] >= lev[N(j)]) ok = false;
    if (!ok) mc::violate("levels", id + ": an edge does not lead to a later level, a vertex is missing or repeated, or there are too many levels");
    mc::doing("finding the approximate critical path");
    auto cp = g.findApproximateCriticalPath();
    if (failed(cp)) mc::violate("critical", id + ": refused");
    else {
      std::map<V, int> seen;
      for (auto& v : *cp) seen[v]++;
      for (int i = 0; i < n; i++) {
        bool src = g.getInDegree(N(i)) == 0, snk = g.getOutDegree(N(i)) == 0;
        if (!src && !snk && seen[N(i)] != 1) { mc::violate("critical", cat(id, ": inner vertex ", i, " appears ", seen[N(i)], " times")); break; }
      }
      for (size_t i = 0; i < cp->size(); i++) for (size_t j = i + 1; j < cp->size(); j++)
        if (m.e[idx[(*cp)[j]]][idx[(*cp)[i]]]) mc::violate("critical", id + ": an edge runs backwards");
      if (!cp->empty() && g.getOutDegree(cp->back()) != 0) mc::violate("critical", id + ": does not end in a sink");
    }
  } else {
    if (succeeded(g.sortGraphByLevels())) mc::violate("levels", id + ": accepted a cycle");
    if (succeeded(g.findApproximateCriticalPath())) mc::violate("critical", id + ": accepted a cycle");
  }
  // strongly connected components
  mc::doing("finding strongly connected components");
  std::vector<int> comp(n, -1);
  int total = 0, c = 0;
  bool ok = true;
  for (auto& s : g.getStronglyConnectedComponents()) { for (auto& v : s) { comp[idx[v]] = c; total++; } ok &= !s.empty(); c++; }
  ok &= total == n;
  for (int i = 0; ok && i < n; i++) for (int j = 0; j < n; j++) if ((comp[i] == comp[j]) != (i == j || (reach[i][j] && reach[j][i]))) ok = false;
  if (!ok) { mc::violate("scc", id); return; }
  // condensation
  {
    mc::doing("condensing");
    Graph<V> h = build<V>(m);
    h.getEdges();
    std::map<V, V> into;  // merged -> survivor
    bool order = true;
    h.condenseGraph([&](V& a, const V& b) { order &= !into.count(a) && !into.count(b) && a != b; into.insert_or_assign(b, a); });
    auto rep = [&](int i) { V v = N(i); for (int k = 0; k <= n && into.count(v); k++) v = into.at(v); return v; };
    ok = order;
    std::set<V> vs; std::set<std::pair<V, V>> es, ws;
    for (int i = 0; i < n; i++) {
      V r = rep(i);
      vs.insert(r);
      ok &= idx.count(r) && comp[idx[r]] == comp[i];
    }
    ok &= (int)vs.size() == c && h.getVertices() == vs;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (m.e[i][j] && comp[i] != comp[j]) ws.insert({rep(i), rep(j)});
    for (auto& e : h.getEdges()) if (e.first != e.second) es.insert(e);
    ok &= es == ws;
    for (auto& v : vs) {
      std::vector<V> in, out;
      for (auto& e : h.getEdges()) { if (e.first == v) out.push_back(e.second); if (e.second == v) in.push_back(e.first); }
      std::sort(in.begin(), in.end()); std::sort(out.begin(), out.end());
      ok &= h.edgesInto(v) == in && h.edgesOutOf(v) == out;
    }
    if (!ok) mc::violate("condense", id + ": the condensed graph is not the graph of strongly connected components");
  }
  // shortest paths
  if (paths)
    for (int a = 0; a < n; a++)
      for (int b = 0; b < n; b++) {
        mc::doing("finding a shortest path");
        std::vector<int> d(n, 1 << 20);
        d[a] = 0;
        for (int r = 0; r < n; r++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (m.e[i][j]) d[j] = std::min(d[j], d[i] + 1);
        auto p = g.getShortestPath(N(a), N(b));
        bool exists = d[b] < (1 << 20);
        if (succeeded(p) != exists) { mc::violate("path", cat(id, ": ", a, " to ", b, exists ? ": none found" : ": found although none exists")); continue; }
        if (!exists) continue;
        bool good = (int)p->size() == d[b] + 1 && p->front() == N(a) && p->back() == N(b);
        for (size_t k = 0; good && k + 1 < p->size(); k++) good = m.e[idx[(*p)[k]]][idx[(*p)[k + 1]]];
        if (!good) mc::violate("path", cat(id, ": ", a, " to ", b, ": not a shortest path"));
        mc::step();
      }
  mc::trace();
  mc::visit(m.str());
  mc::outcome(cat(acyclic, c, mc::join(comp), mc::join(len)));
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  // A. operation histories over three vertices
  {
    int n = 3, ops = n + 2 * n * n, L = T ? 5 : 4;
    auto go = [&](auto tag, const std::vector<int64_t>& v, const Model& start, const std::string& pre) {
      using V = decltype(tag);
      for (int every = 0; every < 2; every++) {
        std::string id = cat("hist:", sizeof(V) > 8, ":", pre, mc::join(v), every ? ":q" : ":e");
        if (!mc::begin(id)) continue;
        Model m = start;
        Graph<V> g;
        for (int i = 0; i < n; i++) if (m.in[i]) g.addVertex(Name<V>::v(i));
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (m.e[i][j]) g.addEdge(Name<V>::v(i), Name<V>::v(j), 2);
        mc::doing("a history of graph operations");
        if (every) compare(id, g, m);
        for (auto op : v) { apply(id, g, m, (int)op, n); if (every) compare(id, g, m); }
        compare(id, g, m);
        mc::visit(m.str());
        mc::trace();
      }
    };
    mc::product(std::vector<int64_t>(L - 1, ops), [&](const std::vector<int64_t>& v) { if (mc::mine()) { go(0, v, Model(n), "0."); if (v.size() < 4) go(std::string(), v, Model(n), "0."); } });
    // and from every non-initial state with all vertices present
    for (int s = 0; s < 512; s++)
      mc::product(std::vector<int64_t>(T ? 3 : 2, ops), [&](const std::vector<int64_t>& v) {
        if (!mc::mine()) return;
        Model m(n);
        for (int i = 0; i < 3; i++) { m.in[i] = true; for (int j = 0; j < 3; j++) m.e[i][j] = s >> (3 * i + j) & 1; }
        go(0, v, m, cat(s, "."));
      });
  }
  // B. every directed graph on up to four vertices, self-loops included; every DAG-shaped and loop-free one above
  for (int n = 0; n <= 4; n++)
    for (int64_t s = 0; s < (1ll << (n * n)); s++) {
      if (!mc::mine()) continue;
      std::string id = cat("g", n, ":", s);
      if (!mc::begin(id)) continue;
      Model m(n);
      for (int i = 0; i < n; i++) { m.in[i] = true; for (int j = 0; j < n; j++) m.e[i][j] = s >> (n * i + j) & 1; }
      algorithms<int>(id, m, true);
    }
  for (int64_t s = 0; s < (1ll << 20); s++) {
    if (!mc::mine()) continue;
    std::string id = cat("h5:", s);
    if (!mc::begin(id)) continue;
    Model m(5);
    int b = 0;
    for (int i = 0; i < 5; i++) { m.in[i] = true; for (int j = 0; j < 5; j++) if (i != j) m.e[i][j] = s >> b++ & 1; }
    algorithms<int>(id, m, s % 5 == 0);
  }
  for (int n = 5; n <= (T ? 7 : 6); n++)
    for (int64_t s = 0; s < (1ll << (n * (n - 1) / 2)); s++) {
      if (!mc::mine()) continue;
      std::string id = cat("dag", n, ":", s);
      if (!mc::begin(id)) continue;
      Model m(n);
      int b = 0;
      static const int perm[] = {3, 0, 5, 1, 4, 2, 6};
      std::vector<int> p;
      for (int x : perm) if (x < n) p.push_back(x);
      for (int i = 0; i < n; i++) { m.in[i] = true; for (int j = i + 1; j < n; j++) m.e[p[i]][p[j]] = s >> b++ & 1; }
      algorithms<int>(id, m, n == 5);
    }
  // C. weighted shortest paths: every graph on four vertices with three weight classes
  mc::product(std::vector<int64_t>(12, 3), [&](const std::vector<int64_t>& v) {
    if (!mc::mine()) return;
    std::string id = "w:" + mc::join(v, "");
    if (!mc::begin(id)) return;
    const uint64_t W[] = {0, 1, 5};
    uint64_t w[4][4] = {};
    int b = 0;
    Graph<int> g;
    for (int i = 0; i < 4; i++) g.addVertex(i);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (i != j) { w[i][j] = W[v[b]] + (v[b] == 2 ? (i + 2 * j) % 3 : 0); b++; if (w[i][j]) g.addEdge(i, j, (int)w[i][j]); }
    for (int a = 0; a < 4; a++) {
      uint64_t d[4] = {1u << 20, 1u << 20, 1u << 20, 1u << 20};
      d[a] = 0;
      for (int r = 0; r < 4; r++) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (w[i][j]) d[j] = std::min(d[j], d[i] + w[i][j]);
      for (int e = 0; e < 4; e++) {
        mc::doing("finding a weighted shortest path");
        auto p = g.getShortestPath(a, e, [&](int x, int y) -> uint64_t { return w[x][y]; });
        if (succeeded(p) != (d[e] < (1u << 20))) { mc::violate("weighted-path", cat(id, ": ", a, " to ", e, ": existence")); continue; }
        if (failed(p)) continue;
        uint64_t total = 0;
        bool ok = p->front() == a && p->back() == e;
        for (size_t k = 0; ok && k + 1 < p->size(); k++) { ok = w[(*p)[k]][(*p)[k + 1]] > 0; total += w[(*p)[k]][(*p)[k + 1]]; }
        if (!ok || total != d[e]) mc::violate("weighted-path", cat(id, ": ", a, " to ", e, ": length ", total, " instead of ", d[e]));
        mc::step();
      }
    }
    mc::trace();
  });
  return mc::finish();
}
