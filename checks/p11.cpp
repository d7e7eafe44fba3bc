// P11: greedy colouring of conflict graphs: proper, complete, small, reusable.
#include "lib/Utils/Graph/Graph.h"
#include "mc.h"
using namespace mlir::heir::graph;
using mc::cat;

static GreedyGraphColoring<int> shared;  // reused across graphs, as passes do

static void check(const std::string& id, int n, const std::vector<std::pair<int, int>>& edges, int stride) {
  if (!mc::begin(id)) return;
  UndirectedGraph<int> g;
  std::vector<std::set<int>> adj(n);
  auto N = [&](int i) { return i * stride - 4; };
  for (int i = 0; i < n; i++) g.addVertex(N(i));
  for (auto [a, b] : edges) {
    if (!g.addEdge(N(a), N(b))) mc::violate("undirected", id + ": edge refused");
    adj[a].insert(b); adj[b].insert(a);
  }
  for (int i = 0; i < n; i++) {
    std::vector<int> want;
    for (int j : adj[i]) want.push_back(N(j));
    std::sort(want.begin(), want.end());
    if (g.edgesIncidentTo(N(i)) != want || !g.contains(N(i))) mc::violate("undirected", id + ": incident edges");
    for (int j = 0; j < n; j++) if (g.hasEdge(N(i), N(j)) != (adj[i].count(j) > 0)) mc::violate("undirected", id + ": hasEdge");
  }
  if (g.addEdge(N(0), 1000) || g.addEdge(1000, N(0)) || g.contains(1000) || g.hasEdge(N(0), 1000)) mc::violate("undirected", id + ": edge to an unknown vertex");
  mc::doing("colouring");
  GreedyGraphColoring<int> fresh;
  auto c = fresh.color(g), d = shared.color(g), e = fresh.color(g);
  mc::eval(3);
  if (c != d || c != e) { mc::violate("reuse", id + ": a reused colourer answers differently"); return; }
  int top = -1; size_t deg = 0;
  bool ok = (int)c.size() == n;
  std::set<int> used;
  for (int i = 0; ok && i < n; i++) {
    if (!c.count(N(i))) { ok = false; break; }
    top = std::max(top, c[N(i)]);
    used.insert(c[N(i)]);
    deg = std::max(deg, adj[i].size());
    if (c[N(i)] < 0) ok = false;
    for (int j : adj[i]) if (c.count(N(j)) && c[N(j)] == c[N(i)]) ok = false;
  }
  if (!ok) { mc::violate("proper", id + ": a vertex is uncoloured or shares a colour with a neighbour"); return; }
  if ((int)used.size() != top + 1) mc::violate("contiguous", id + ": unused colour below the largest");
  if (top + 1 > (int)deg + 1) mc::violate("bound", id + ": more colours than the largest degree plus one");
  // two-colourable graphs get two colours (a guarantee of the saturation-degree rule)
  std::vector<int> side(n, -1);
  bool bip = true;
  for (int s = 0; s < n; s++) {
    if (side[s] >= 0) continue;
    side[s] = 0;
    std::vector<int> st{s};
    while (!st.empty()) { int u = st.back(); st.pop_back(); for (int w : adj[u]) { if (side[w] < 0) side[w] = 1 - side[u], st.push_back(w); else if (side[w] == side[u]) bip = false; } }
  }
  if (bip && top + 1 > 2) mc::violate("bipartite", cat(id, ": ", top + 1, " colours for a bipartite graph"));
  std::string canon = cat(n, ":");
  for (int i = 0; i < n; i++) canon += cat(c[N(i)], ",");
  mc::outcome(canon);
  mc::visit(id);
  mc::step(edges.size());
  mc::trace();
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  for (int n = 1; n <= 7; n++)
    for (int64_t s = 0; s < (1ll << (n * (n - 1) / 2)); s++) {
      if (!mc::mine()) continue;
      std::vector<std::pair<int, int>> e;
      int b = 0;
      for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (s >> b++ & 1) { if (s % 3) e.push_back({i, j}); else e.push_back({j, i}); }
      check(cat("g", n, ":", s), n, e, s % 2 ? 3 : -3);
    }
  // every bipartite graph between 4 and 4 vertices
  for (int s = 0; s < (1 << 16); s++) {
    if (!mc::mine()) continue;
    std::vector<std::pair<int, int>> e;
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (s >> (4 * i + j) & 1) e.push_back({2 * i, 2 * j + 1});
    check(cat("b:", s), 8, e, 1);
  }
  // trees, cycles, grids of larger size
  for (int n = 3; n <= 80; n++)
    for (int kind = 0; kind < 6; kind++) {
      if (!mc::mine()) continue;
      std::vector<std::pair<int, int>> e;
      for (int i = 1; i < n; i++) {
        if (kind == 0) e.push_back({i - 1, i});
        if (kind == 1) e.push_back({(i - 1) / 2, i});
        if (kind == 2) e.push_back({i * 7919 % i, i});
        if (kind == 3) { if (i % 8) e.push_back({i - 1, i}); if (i >= 8) e.push_back({i - 8, i}); }
        if (kind == 4) for (int j = 0; j < i; j++) if ((i * j + i + j) % 3 == 0) e.push_back({j, i});
        if (kind == 5) e.push_back({i - 1, i});
      }
      if (kind == 5) e.push_back({n - 1, 0});
      check(cat("big", kind, ":", n), n, e, 1);
    }
  return mc::finish();
}
