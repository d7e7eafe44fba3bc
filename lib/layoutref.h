// Explicit point sets of layout relations, and reference layouts written from their definitions.
#ifndef VERIF_LIB_LAYOUTREF_H_
#define VERIF_LIB_LAYOUTREF_H_
#include <functional>
#include <numeric>
#include <set>
#include <vector>
#include "lib/Utils/Layout/Utils.h"
#include "mc.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/MLIRContext.h"

namespace lr {
using namespace mlir;
using mlir::presburger::IntegerRelation;
using Pt = std::vector<int64_t>;
using Set = std::set<Pt>;  // domain coordinates followed by range coordinates

// Through the repository's own enumeration.
inline Set pts(const IntegerRelation& r) {
  heir::PointPairCollector c(r.getNumDomainVars(), r.getNumRangeVars());
  heir::enumeratePoints(r, c);
  Set s;
  for (auto& [a, b] : c.points) { Pt p = a; p.insert(p.end(), b.begin(), b.end()); s.insert(p); }
  mc::step(c.points.size());
  return s;
}
// Through presburger membership over a box, independently of isl.
inline Set ptsBox(const IntegerRelation& r, const Pt& lo, const Pt& hi) {
  Set s;
  Pt b;
  for (size_t i = 0; i < lo.size(); i++) b.push_back(hi[i] - lo[i] + 1);
  mc::product(b, [&](const Pt& v) {
    Pt p = v;
    for (size_t i = 0; i < p.size(); i++) p[i] += lo[i];
    if (r.containsPointNoLocal(p)) s.insert(p);
  });
  return s;
}
// All points of a box satisfying a predicate.
inline Set where(const Pt& bounds, const std::function<bool(const Pt&)>& f) {
  Set s;
  mc::product(bounds, [&](const Pt& v) { if (f(v)) s.insert(v); });
  return s;
}
inline int64_t pow2(int64_t v) { int64_t p = 1; while (p < v) p *= 2; return p; }
inline int64_t cdiv(int64_t a, int64_t b) { return (a + b - 1) / b; }
inline int64_t prod(const Pt& s) { int64_t p = 1; for (auto x : s) p *= x; return p; }
inline int64_t flat(const Pt& shape, const Pt& ix) { int64_t f = 0; for (size_t i = 0; i < shape.size(); i++) f = f * shape[i] + ix[i]; return f; }
inline Pt unflat(const Pt& shape, int64_t f) { Pt r(shape.size()); for (int i = (int)shape.size() - 1; i >= 0; i--) { r[i] = f % shape[i]; f /= shape[i]; } return r; }
inline int64_t md(int64_t a, int64_t m) { return ((a % m) + m) % m; }
inline std::string show(const Set& s, size_t cap = 12) {
  std::string o;
  for (auto& p : s) { if (!cap--) { o += "..."; break; } o += "(" + mc::join(p) + ")"; }
  return o;
}
inline std::string diff(const Set& got, const Set& want) {
  Set extra, missing;
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::inserter(extra, extra.end()));
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::inserter(missing, missing.end()));
  return mc::cat("extra points ", show(extra), " missing points ", show(missing));
}

inline Set rowMajor(const Pt& shape, int64_t slots) {
  Pt b = shape;
  int64_t n = prod(shape), pad = pow2(n);
  b.push_back(cdiv(n, slots));
  b.push_back(slots);
  return where(b, [&](const Pt& p) {
    int64_t f = flat(shape, Pt(p.begin(), p.begin() + shape.size())), ct = p[shape.size()], s = p[shape.size() + 1];
    return f / slots == ct && s % pad == f % slots;
  });
}
inline Set diagonal(int64_t R, int64_t C, int64_t slots) {
  int64_t pr = pow2(R), pc = pow2(C);
  return where({R, C, std::min(pr, pc), slots}, [&](const Pt& p) { return p[3] % pr == p[0] && (p[2] + p[3]) % pc == p[1]; });
}
inline Set bicyclic(int64_t R, int64_t C, int64_t slots) {
  return where({R, C, cdiv(R * C, slots), slots}, [&](const Pt& p) { int64_t k = p[2] * slots + p[3]; return k % R == p[0] && k % C == p[1]; });
}
inline Set tricyclic(int64_t h, int64_t m, int64_t n, int64_t slots) {
  return where({h, m, n, cdiv(h * m * n, slots), slots}, [&](const Pt& p) { int64_t k = p[3] * slots + p[4]; return k % h == p[0] && k % m == p[1] && k % n == p[2]; });
}
inline Set bicyclicDiagonal(int64_t R, int64_t C, int con, int64_t stride, int64_t slots) {
  int64_t n = con ? C : R, f = con ? R : C;
  return where({R, C, n, slots}, [&](const Pt& p) { return p[con] == md(p[3] + p[2] * stride, n) && p[1 - con] == p[3] % f; });
}
inline Set periodic(int64_t slots, int64_t period) {
  return where({1, period, 1, slots}, [&](const Pt& p) { return p[0] == p[2] && p[3] % period == p[1]; });
}
inline Set perRow(int64_t R, int64_t C, int64_t slots) {
  return where({R, C, R, slots}, [&](const Pt& p) { return p[2] == p[0] && p[3] % pow2(C) == p[1]; });
}
// (a ; b): points (x, z) with (x, y) in a, (y, z) in b.
inline Set compose(const Set& a, const Set& b, size_t nx, size_t ny) {
  std::map<Pt, std::vector<Pt>> by;
  for (auto& p : b) by[Pt(p.begin(), p.begin() + ny)].push_back(Pt(p.begin() + ny, p.end()));
  Set r;
  for (auto& p : a) {
    auto it = by.find(Pt(p.begin() + nx, p.end()));
    if (it == by.end()) continue;
    for (auto& z : it->second) { Pt q(p.begin(), p.begin() + nx); q.insert(q.end(), z.begin(), z.end()); r.insert(q); }
  }
  return r;
}
}  // namespace lr
#endif
