// P08: the negacyclic number-theoretic transform and its inverse.
#include "lib/Utils/Polynomial/NTT.h"
#include "mc.h"
using namespace mlir::heir::polynomial;
using mc::cat;
typedef unsigned __int128 u128;
typedef uint64_t u64;

static u64 mulm(u64 a, u64 b, u64 q) { return (u64)((u128)a * b % q); }
static u64 powm(u64 a, u64 e, u64 q) { u64 r = 1 % q; a %= q; for (; e; e >>= 1) { if (e & 1) r = mulm(r, a, q); a = mulm(a, a, q); } return r; }
static u64 addm(u64 a, u64 b, u64 q) { return (u64)(((u128)a + b) % q); }
static uint32_t rev(uint32_t x, int bits) { uint32_t r = 0; for (int i = 0; i < bits; i++) if (x >> i & 1) r |= 1u << (bits - 1 - i); return r; }
static int lg(uint32_t n) { int r = 0; while ((1u << r) < n) r++; return r; }

// primitive 2n-th roots of unity mod prime q: r^n = -1 (n a power of two).
static std::vector<u64> roots(u64 q, u64 n, size_t cap) {
  std::vector<u64> r;
  for (u64 g = 2; g < q && r.empty(); g++) {
    u64 w = powm(g, (q - 1) / (2 * n), q);
    if (powm(w, n, q) == q - 1)
      for (u64 k = 1; k < 2 * n && r.size() < cap; k += 2) r.push_back(powm(w, k, q));
  }
  return r;
}
static u64 eval(const std::vector<u64>& c, u64 x, u64 q) { u64 r = 0; for (size_t i = c.size(); i-- > 0;) r = addm(mulm(r, x, q), c[i] % q, q); return r; }

// every output = the evaluation at the odd power of the root that the bit-reversed position names
static bool forward(const std::string& key, const std::vector<u64>& c, u64 q, u64 w, std::vector<u64>* out = nullptr) {
  uint32_t n = c.size(), bits = lg(n);
  auto got = c;
  mc::doing("transforming");
  nttInPlace(got, q, w);
  mc::eval();
  for (uint32_t i = 0; i < n; i++) {
    u64 want = n == 1 ? c[0] : eval(c, powm(w, 2 * (u64)i + 1, q), q);
    mc::step();
    if (got[rev(i, bits)] != want) {
      mc::violate(key, cat("n=", n, " q=", q, " root=", w, " coefficients ", mc::join(c).substr(0, 200), ": value ", i, " is ", got[rev(i, bits)], " expected ", want));
      return false;
    }
  }
  if (out) *out = got;
  return true;
}
static bool backAndForth(const std::string& key, const std::vector<u64>& c, u64 q, u64 w) {
  auto a = c;
  mc::doing("inverse transforming");
  nttInPlace(a, q, w); inttInPlace(a, q, w);
  auto b = c;
  inttInPlace(b, q, w); nttInPlace(b, q, w);
  mc::eval(2);
  if (a == c && b == c) { mc::trace(); return true; }
  mc::violate(key, cat("n=", c.size(), " q=", q, " root=", w, " ", mc::join(c).substr(0, 200), (a == c ? ": forward after inverse" : ": inverse after forward"), " is not the identity"));
  return false;
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  // A. every coefficient vector
  struct C { u64 n, q; };
  std::vector<C> cs = {{1, 3}, {1, 5}, {1, 17}, {2, 5}, {2, 13}, {2, 17}, {2, 29}, {2, 97}, {2, 257}, {4, 17}};
  if (T) cs.push_back({4, 41});
  for (auto [n, q] : cs)
    for (u64 w : roots(q, n, 64))
      for (u64 first = 0; first < q; first++) {
        if (!mc::mine()) continue;
        if (!mc::begin(cat("all:n", n, ":q", q, ":w", w, ":", first))) continue;
        std::vector<int64_t> b(n, (int64_t)q);
        b[0] = 1;
        mc::product(b, [&](const std::vector<int64_t>& v) {
          std::vector<u64> c(v.begin(), v.end());
          c[0] = first;
          mc::state();
          forward("forward", c, q, w);
          backAndForth("inverse", c, q, w);
        });
        mc::outcome(cat(n, ",", q, ",", w));
      }
  // B. all sizes, moduli up to the top of 64 bits: every basis vector and every pair of extreme values
  std::vector<u64> qs = {65537, 7681, 12289, 998244353, 4293918721ull, 2013265921ull, 4611686018326724609ull};
  // the largest primes = 1 mod 2^k below 2^64 and around 2^63, 2^32, 2^31
  auto prime = [](u64 n) {
    if (n < 2 || n % 2 == 0) return n == 2;
    u64 d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, s++;
    for (u64 a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
      if (a % n == 0) continue;
      u64 x = powm(a, d, n); bool ok = x == 1 || x == n - 1;
      for (int i = 1; i < s && !ok; i++) { x = mulm(x, x, n); ok = x == n - 1; }
      if (!ok) return false;
    }
    return true;
  };
  for (int k : {4, 9, 13})
    for (u64 top : {~0ull, 1ull << 63, (1ull << 63) + (1ull << 40), 1ull << 32, 1ull << 31, 3ull << 62}) {
      u64 q = (top >> k << k) + 1;
      if (q == 1) q = (~0ull >> k << k) + 1;
      while (!prime(q)) q -= 1ull << k;
      qs.push_back(q);
    }
  for (u64 q : qs) {
    if (!prime(q)) { mc::count("not_prime"); continue; }
    for (u64 n = 2; n <= (T ? 1024 : 256); n *= 2) {
      if ((q - 1) % (2 * n)) continue;
      auto rs = roots(q, n, 2);
      u64 extra = rs.empty() ? 0 : powm(rs[0], 2 * n - 1, q);
      if (extra) rs.push_back(extra);
      for (u64 w : rs) {
        if (!mc::mine()) continue;
        if (!mc::begin(cat("basis:n", n, ":q", q, ":w", w))) continue;
        for (u64 i = 0; i < n; i++)
          for (u64 v : {(u64)1, q - 1, q / 2}) {
            std::vector<u64> c(n, 0);
            c[i] = v;
            if (n <= 64 || v == q - 1) forward("forward-basis", c, q, w);
            backAndForth("inverse-basis", c, q, w);
            std::vector<u64> f(n, q - 1);
            f[i] = v;
            if (n <= 32) forward("forward-extreme", f, q, w);
            backAndForth("inverse-extreme", f, q, w);
            mc::visit(cat(n, q, w, i, v));
          }
        if (n <= 16)
          for (u64 i = 0; i < n; i++)
            for (u64 j = 0; j < n; j++) {
              // x^i * x^j and (q-1)x^i * (dense): multiplication through the transform is negacyclic
              std::vector<u64> a(n, 0), b(n);
              a[i] = q - 1; a[j] = addm(a[j], q - 2, q);
              for (u64 k = 0; k < n; k++) b[k] = (k * 0x9e3779b97f4a7c15ull + j) % q;
              std::vector<u64> A, B, P(n), want(n, 0);
              if (!forward("forward-product", a, q, w, &A) || !forward("forward-product", b, q, w, &B)) continue;
              for (u64 k = 0; k < n; k++) P[k] = mulm(A[k], B[k], q);
              inttInPlace(P, q, w);
              for (u64 k = 0; k < n; k++)
                for (u64 l = 0; l < n; l++) {
                  u64 m = mulm(a[k], b[l], q);
                  if (k + l >= n && m) m = q - m;
                  want[(k + l) % n] = addm(want[(k + l) % n], m, q);
                }
              if (P != want) mc::violate("product", cat("n=", n, " q=", q, ": product of the transforms is not the negacyclic product"));
              mc::trace();
            }
        mc::outcome(cat("b", n, ",", q));
        mc::sample(cat("n=", n, " q=", q, " root=", w), 3);
      }
    }
  }
  // C. bit reversal
  for (uint32_t bits = 0; bits <= 14; bits++) {
    if (!mc::mine() || !mc::begin(cat("rev:", bits))) continue;
    for (uint32_t x = 0; x < (1u << bits); x++) {
      if (reverseBits(x, bits) != rev(x, bits)) { mc::violate("reverse", cat(x, " in ", bits, " bits")); break; }
      mc::step();
    }
  }
  for (uint32_t x : {0u, 1u, 0x80000000u, 0xffffffffu, 0x12345678u, 3u})
    if (reverseBits(x, 32) != rev(x, 32)) mc::violate("reverse", cat(x, " in 32 bits"));
  return mc::finish();
}
