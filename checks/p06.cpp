// P06: polynomial-evaluation DAGs (Horner, Paterson-Stockmeyer, Chebyshev basis) equal the polynomial,
// as an identity in the argument, and keep their promised multiplicative depth.
#include "dageval.h"
#include "lib/Kernel/AbstractValue.h"
#include "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h"
#include "lib/Utils/Polynomial/Horner.h"
#include "lib/Utils/Polynomial/PatersonStockmeyer.h"
#include "mc.h"
using namespace mlir::heir::kernel;
using namespace mlir::heir::polynomial;
using mc::cat;
using dageval::EvalError;

// One-variable polynomials over Z/2^64, exact for the identities compared here.
struct U {
  std::vector<uint64_t> c;
  void trim() { while (!c.empty() && !c.back()) c.pop_back(); }
  static U constant(double d) {
    int64_t k = (int64_t)d;
    if ((double)k != d) throw EvalError("non-integer constant");
    U u; u.c = {(uint64_t)k}; u.trim(); return u;
  }
  static U x(int64_t shift) { U u; u.c = {(uint64_t)shift, 1}; return u; }
  friend U operator+(const U& a, const U& b) {
    U r; r.c.resize(std::max(a.c.size(), b.c.size()));
    for (size_t i = 0; i < r.c.size(); i++) r.c[i] = (i < a.c.size() ? a.c[i] : 0) + (i < b.c.size() ? b.c[i] : 0);
    r.trim(); return r;
  }
  friend U operator-(const U& a, const U& b) {
    U r; r.c.resize(std::max(a.c.size(), b.c.size()));
    for (size_t i = 0; i < r.c.size(); i++) r.c[i] = (i < a.c.size() ? a.c[i] : 0) - (i < b.c.size() ? b.c[i] : 0);
    r.trim(); return r;
  }
  friend U operator*(const U& a, const U& b) {
    U r; if (a.c.empty() || b.c.empty()) return r;
    r.c.assign(a.c.size() + b.c.size() - 1, 0);
    for (size_t i = 0; i < a.c.size(); i++) for (size_t j = 0; j < b.c.size(); j++) r.c[i + j] += a.c[i] * b.c[j];
    r.trim(); return r;
  }
  bool operator==(const U& o) const { return c == o.c; }
  int64_t toInt() const { if (c.size() > 1) throw EvalError("index depends on data"); return c.empty() ? 0 : (int64_t)c[0]; }
  static U floorDiv(const U&, int) { throw EvalError("division in a polynomial evaluation"); }
  std::string str() const { std::string s; for (auto v : c) s += cat((int64_t)v, " "); return "[" + s.substr(0, 200) + "]"; }
};
// Multiplicative depth and number of ciphertext-ciphertext products.
struct D {
  int d = 0; bool ct = false;
  static int products;
  static D constant(double) { return {}; }
  static D join(D a, D b) { return {std::max(a.d, b.d), a.ct || b.ct}; }
  friend D operator+(D a, D b) { return join(a, b); }
  friend D operator-(D a, D b) { return join(a, b); }
  friend D operator*(D a, D b) { D r = join(a, b); if (a.ct && b.ct) { r.d++; products++; } return r; }
  int64_t toInt() const { return 0; }
  static D floorDiv(D a, int) { return a; }
};
int D::products = 0;

class X : public AbstractValue {
 public:
  X(std::vector<int64_t> s) : shape(std::move(s)) {}
  std::vector<int64_t> getShape() const override { return shape; }
 private:
  std::vector<int64_t> shape;
};
using Node = ArithmeticDagNode<X>;
using Ptr = std::shared_ptr<Node>;

static int clog2(int64_t n) { int r = 0; while ((1ll << r) < n) r++; return r; }

// Evaluates `dag` on slots x, x+1, ...; `want(shift)` is the polynomial at x+shift.
template <class F>
static bool judge(const std::string& key, const std::string& id, const Ptr& dag, const std::vector<int64_t>& shape, F want) {
  mc::eval();
  int64_t n = 1; for (auto s : shape) n *= s;
  try {
    dageval::Eval<X, U> ev;
    ev.leaf = [&](const X&) { dageval::Val<U> v{shape, {}}; for (int64_t i = 0; i < n; i++) v.data.push_back(U::x(i)); return v; };
    auto r = ev.run(dag);
    mc::step(ev.steps);
    if (r.size() != 1 || r[0].shape != shape) { mc::violate(key, id + ": wrong number or shape of results"); return false; }
    for (int64_t i = 0; i < n; i++) {
      U w = want(i);
      if (!(r[0].data[i] == w)) { mc::violate(key, cat(id, ": slot ", i, " evaluates to ", r[0].data[i].str(), " expected ", w.str())); return false; }
      mc::visit(w.str());
    }
  } catch (EvalError& e) { mc::violate(key, id + ": " + e.what()); return false; }
  mc::trace();
  return true;
}
static std::pair<int, int> cost(const Ptr& dag) {
  dageval::Eval<X, D> ev;
  ev.leaf = [&](const X& x) { dageval::Val<D> v{x.getShape(), {}}; int64_t n = 1; for (auto s : v.shape) n *= s; v.data.assign(n, D{0, true}); return v; };
  D::products = 0;
  auto r = ev.run(dag);
  return {r[0].data[0].d, D::products};
}

static U shiftPow(const std::map<int64_t, double>& c, int64_t s) {
  U r, p = U::constant(1);
  int64_t at = 0;
  for (auto& [e, v] : c) { while (at < e) { p = p * U::x(s); at++; } r = r + p * U::constant(v); }
  return r;
}
static U cheb(const std::vector<double>& c, int64_t s) {
  U r, a = U::constant(1), b = U::x(s), two = U::constant(2);
  for (size_t i = 0; i < c.size(); i++) {
    r = r + a * U::constant(c[i]);
    U nx = two * U::x(s) * b - a;
    a = b; b = nx;
  }
  return r;
}

struct Ty { const char* name; DagType t; std::vector<int64_t> shape; };
static std::vector<Ty> types() {
  return {{"f", DagType::floatTy(32), {}}, {"tf", DagType::floatTensor(32, {2}), {2}}, {"i", DagType::integer(32), {}}, {"ti", DagType::intTensor(32, {2}), {2}}};
}
static bool full(const std::vector<int>&);

static void monomial(const std::string& id0, const std::map<int64_t, double>& c, int nTypes) {
  auto ts = types();
  for (int t = 0; t < nTypes; t++) {
    int64_t deg = c.empty() ? 0 : c.rbegin()->first;
    auto want = [&](int64_t s) { return shiftPow(c, s); };
    std::string id = cat("mono:", id0, ":", ts[t].name);
    if (!mc::begin(id)) continue;
    mc::doing("building a Horner evaluation");
    Ptr h = hornerMonomialPolynomialEvaluation<X>(Node::leaf(X(ts[t].shape)), c, ts[t].t);
    judge("horner", id, h, ts[t].shape, want);
    mc::doing("building a Paterson-Stockmeyer evaluation");
    Ptr p = patersonStockmeyerMonomialPolynomialEvaluation<X>(Node::leaf(X(ts[t].shape)), c, ts[t].t);
    judge("paterson-stockmeyer", id, p, ts[t].shape, want);
    if (ts[t].shape.empty()) {
      auto [hd, hp] = cost(h);
      auto [pd, pp] = cost(p);
      if (hp > std::max<int64_t>(0, deg - 1)) mc::violate("horner-cost", cat(id, ": ", hp, " products for degree ", deg));
      int64_t k = (int64_t)std::ceil(std::sqrt((double)deg));
      if (pp > std::max<int64_t>(0, 2 * k)) mc::violate("ps-cost", cat(id, ": ", pp, " products for degree ", deg));
    }
    mc::outcome(id0);
  }
}

static void chebyshev(const std::string& id0, const std::vector<double>& c, int nTypes, double threshold = kMinCoeffs) {
  auto ts = types();
  for (int t = 0; t < nTypes; t++) {
    std::string id = cat("cheb:", id0, ":", ts[t].name);
    if (!mc::begin(id)) continue;
    mc::doing("building a Chebyshev Paterson-Stockmeyer evaluation");
    Ptr p = patersonStockmeyerChebyshevPolynomialEvaluation<X>(X(ts[t].shape), c, threshold, ts[t].t);
    bool zero = true;
    for (double v : c) zero &= v == 0;
    if (!p) {
      if (!zero) mc::violate("chebyshev", id + ": a nonzero polynomial was dropped");
      else { mc::trace(); mc::count("zero_polynomials"); }
      continue;
    }
    judge("chebyshev", id, p, ts[t].shape, [&](int64_t s) { return cheb(c, s); });
    if (ts[t].shape.empty()) {
      auto [d, n] = cost(p);
      int64_t deg = (int64_t)c.size() - 1;
      if (d > clog2(deg + 1)) mc::violate("chebyshev-depth", cat(id, ": depth ", d, " for degree ", deg));
    }
    mc::outcome(id0);
  }
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();

  // A. every coefficient vector over a small alphabet
  for (int deg = 0; deg <= (T ? 9 : 8); deg++)
    mc::product(std::vector<int64_t>(deg + 1, 3), [&](const std::vector<int64_t>& v) {
      if (!mc::mine()) return;
      std::map<int64_t, double> m;
      std::vector<double> c;
      const double val[] = {0, 1, -3};
      for (int i = 0; i <= deg; i++) { c.push_back(val[v[i]]); if (v[i]) m[i] = val[v[i]]; }
      if (m.empty() || m.rbegin()->first == deg) monomial("a" + mc::join(v, ""), m, 2);
      chebyshev("a" + mc::join(v, ""), c, 2);
    });
  // explicit zero coefficients in the map
  for (int deg = 0; deg <= 5; deg++)
    for (int mask = 0; mask < (1 << (deg + 1)); mask++) {
      if (!mc::mine()) continue;
      std::map<int64_t, double> m;
      for (int i = 0; i <= deg; i++) m[i] = mask >> i & 1 ? i + 2 : 0;
      monomial(cat("z", deg, ".", mask), m, 4);
    }
  // B. every support up to a degree, distinct coefficients
  int B = T ? 16 : 15;
  for (int mask = 0; mask < (1 << (B + 1)); mask++) {
    if (!mc::mine()) continue;
    std::map<int64_t, double> m;
    std::vector<double> c;
    int top = 0;
    for (int i = 0; i <= B; i++) if (mask >> i & 1) top = i;
    for (int i = 0; i <= B; i++) {
      double v = mask >> i & 1 ? (i % 2 ? -1 : 1) * (double)(i * i * 5 + 3) : 0;
      if (v != 0) m[i] = v;
      if (i <= top) c.push_back(v);
    }
    monomial(cat("b", mask), m, mask % 97 == 0 ? 4 : 1);
    chebyshev(cat("b", mask), c, mask % 97 == 0 ? 4 : 1);
    // trailing zeros make the formal degree larger
    c.resize(B + 1, 0);
    chebyshev(cat("bz", mask), c, 1);
  }
  // C. every degree up to a bound: dense, alternating, single term, top and bottom, one gap
  for (int deg = 0; deg <= (T ? 500 : 300); deg++)
    for (int shape = 0; shape < 8; shape++) {
      if (!mc::mine()) continue;
      std::map<int64_t, double> m;
      std::vector<double> c(deg + 1, 0.0);
      for (int i = 0; i <= deg; i++) {
        bool on = shape == 0 ? true : shape == 1 ? i % 2 == deg % 2 : shape == 2 ? i == deg : shape == 3 ? (i == deg || i == 0)
                  : shape == 4 ? i != deg / 2 : shape == 5 ? i >= deg / 2 : shape == 6 ? (i == deg || i < deg / 3) : (i % 5 != 2 || i == deg);
        if (on) { c[i] = (i % 3 - 1) * 7 + i + 1; if (c[i] == 0) c[i] = 11; m[i] = c[i]; }
      }
      monomial(cat("c", deg, ".", shape), m, shape == 0 && deg < 40 ? 4 : 1);
      chebyshev(cat("c", deg, ".", shape), c, shape == 0 && deg < 40 ? 4 : 1);
    }
  // D. powers and Chebyshev polynomials, with their depth
  for (int k = 0; k <= (T ? 500 : 400); k++) {
    if (!mc::mine()) continue;
    for (auto& ty : types()) {
      if (!ty.shape.empty() && k > 20) continue;
      std::string id = cat("powers:", k, ":", ty.name);
      if (!mc::begin(id)) continue;
      mc::doing("building powers");
      auto leaf = Node::leaf(X(ty.shape));
      auto pw = computePowers<X>(leaf, k, ty.t);
      auto ch = genChebyshevPowersRecursive<X>(leaf, k, ty.t);
      auto cv = computeChebyshevPolynomialValues<X>(X(ty.shape), k, ty.t);
      if ((int)pw.size() != k + 1 || (int)cv.size() != k + 1) { mc::violate("powers", cat(id, ": ", pw.size(), " powers, ", cv.size(), " values")); continue; }
      std::set<int> which{0, 1, k, k - 1, k / 2};
      if (k <= 40) for (int i = 0; i <= k; i++) which.insert(i);
      for (int i : which) {
        if (i < 0 || i > k) continue;
        std::vector<double> unit(i + 1, 0.0);
        unit[i] = 1;
        judge("powers", cat(id, ":x^", i), pw[i], ty.shape, [&](int64_t s) { return shiftPow({{i, 1.0}}, s); });
        judge("chebyshev-values", cat(id, ":T", i), cv[i], ty.shape, [&](int64_t s) { return cheb(unit, s); });
        if (!ch.count(i) || !ch[i]) { mc::violate("chebyshev-powers", cat(id, ": T", i, " missing")); continue; }
        judge("chebyshev-powers", cat(id, ":T", i), ch[i], ty.shape, [&](int64_t s) { return cheb(unit, s); });
        if (ty.shape.empty() && i >= 1) {
          if (cost(pw[i]).first > clog2(i)) mc::violate("powers-depth", cat(id, ":x^", i, ": depth ", cost(pw[i]).first));
          if (cost(ch[i]).first > clog2(i)) mc::violate("chebyshev-powers-depth", cat(id, ":T", i, ": depth ", cost(ch[i]).first));
          if (cost(cv[i]).first > clog2(i)) mc::violate("chebyshev-values-depth", cat(id, ":T", i, ": depth ", cost(cv[i]).first));
        }
      }
    }
  }
  for (int64_t n = 1; n <= (T ? 1 << 22 : 1 << 20); n++) {
    if (n % 4096 == 1 && !mc::begin(cat("split:", n))) continue;
    auto [a, b] = splitDegree(n);
    if (n >= 2 && (a + b != n || a < 1 || b < 1 || clog2(std::max(a, b)) + 1 > clog2(n))) mc::violate("split", cat("degree ", n, " split into ", a, "+", b));
  }
  // E. coefficients below the threshold are dropped, all others kept
  for (int deg = 1; deg <= 5; deg++)
    mc::product(std::vector<int64_t>(deg + 1, 4), [&](const std::vector<int64_t>& v) {
      if (!mc::mine()) return;
      const double val[] = {0, 1, 8, -2};  // threshold 2: 1 is dropped before the decomposition only when it stays below
      std::vector<double> c;
      bool small = false;
      for (auto i : v) { c.push_back(val[i] * 4); small |= i == 1; }
      chebyshev("e" + mc::join(v, ""), c, 1, 0.5);
      (void)small;
    });
  return mc::finish();
}
