// P03: encrypted matrix-matrix products on bicyclic and tricyclic encodings.
#include <numeric>
#include "kernel_common.h"
using namespace kc;

static int64_t p2(int64_t n) { int64_t r = 1; while (r < n) r *= 2; return r; }

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  auto cop = [](int64_t a, int64_t b) { return std::gcd(a, b) == 1; };

  int64_t D = T ? 14 : 9;
  for (int64_t m = 1; m <= D; m++)
    for (int64_t n = 1; n <= D; n++)
      for (int64_t p = 1; p <= D; p++) {
        if (!cop(m, n) || !cop(n, p) || !cop(m, p)) continue;
        if (!mc::mine()) continue;
        int64_t minSlots = m * n + n * p + m * p;
        for (int64_t slots : {p2(minSlots), 2 * p2(minSlots)}) {
          if (slots > p2(minSlots) && minSlots > 64) continue;
          std::string id = cat("bicyclic:", m, "x", n, "x", p, ":slots", slots);
          if (!mc::begin(id)) continue;
          auto A = [&](int64_t i, int64_t k) { return Poly::var(1 + i * n + k); };
          auto B = [&](int64_t k, int64_t j) { return Poly::var(5000 + k * p + j); };
          std::vector<Poly> a(slots), b(slots), want;
          for (int64_t s = 0; s < slots; s++) a[s] = A(s % m, s % n), b[s] = B(s % n, s % p);
          int64_t valid = slots - (n * p - 1 + m * (n - 1));
          std::vector<std::vector<Poly>> C(m, std::vector<Poly>(p));
          for (int64_t i = 0; i < m; i++)
            for (int64_t j = 0; j < p; j++)
              for (int64_t k = 0; k < n; k++) C[i][j] = C[i][j] + A(i, k) * B(k, j);
          for (int64_t s = 0; s < valid; s++) want.push_back(C[s % m][s % p]);
          mc::doing("building the bicyclic product kernel");
          Run r = run(implementBicyclicMatmul<Sym>(symVec(a), symVec(b), m, n, p, DagType::intTensor(32, {slots})));
          if (valid < m * p) mc::violate("domain", id + ": the valid prefix cannot hold the product");
          same("bicyclic", id, r, want, valid);
          for (auto x : r.rotations) if (x < 0 || x >= slots) mc::violate("bicyclic-rotation", id + ": rotation out of range");
          mc::outcome(cat(m, ",", n, ",", p));
          mc::sample(cat(id, ": slot0 = ", r.out.empty() ? "?" : r.out[0].str()), 2);
        }
      }

  int64_t H = T ? 7 : 5, E = T ? 9 : 7;
  for (int64_t h = 1; h <= H; h++)
    for (int64_t m = 1; m <= E; m++)
      for (int64_t n = 1; n <= E; n++)
        for (int64_t p = 1; p <= E; p++) {
          if (!cop(h, m) || !cop(h, n) || !cop(h, p) || !cop(m, n) || !cop(n, p) || !cop(m, p)) continue;
          if (!mc::mine()) continue;
          int64_t slots = p2(h * (m * n + n * p + m * p));
          std::string id = cat("tricyclic:", h, ":", m, "x", n, "x", p);
          if (!mc::begin(id)) continue;
          auto A = [&](int64_t b, int64_t i, int64_t k) { return Poly::var(1 + (b * m + i) * n + k); };
          auto B = [&](int64_t b, int64_t k, int64_t j) { return Poly::var(5000 + (b * n + k) * p + j); };
          std::vector<Poly> a(slots), b(slots), want;
          for (int64_t s = 0; s < slots; s++) a[s] = A(s % h, s % m, s % n), b[s] = B(s % h, s % n, s % p);
          int64_t valid = slots - (h * n * p - 1 + h * m * (n - 1));
          std::map<std::tuple<int64_t, int64_t, int64_t>, Poly> C;
          for (int64_t x = 0; x < h; x++)
            for (int64_t i = 0; i < m; i++)
              for (int64_t j = 0; j < p; j++) {
                Poly& c = C[{x, i, j}];
                for (int64_t k = 0; k < n; k++) c = c + A(x, i, k) * B(x, k, j);
              }
          for (int64_t s = 0; s < valid; s++) want.push_back(C[{s % h, s % m, s % p}]);
          mc::doing("building the tricyclic product kernel");
          Run r = run(implementTricyclicBatchMatmul<Sym>(symVec(a), symVec(b), h, m, n, p, DagType::intTensor(32, {slots})));
          if (valid < h * m * p) mc::violate("domain", id + ": the valid prefix cannot hold the product");
          same("tricyclic", id, r, want, valid);
          mc::outcome(cat("t", h, ",", m, ",", n, ",", p));
        }
  return mc::finish();
}
