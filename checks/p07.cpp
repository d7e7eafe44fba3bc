// P07: polynomial algebra (integer, float, Chebyshev basis) agrees with coefficient arithmetic.
#include "lib/Utils/Polynomial/ChebyshevDecomposition.h"
#include "lib/Utils/Polynomial/Polynomial.h"
#include "mc.h"
#include <cmath>
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/MLIRContext.h"
using namespace mlir::heir::polynomial;
using llvm::APFloat;
using llvm::APInt;
using llvm::SmallVector;
using mc::cat;
using Ref = std::map<uint64_t, int64_t>;  // exponent -> nonzero coefficient

static Ref rAdd(const Ref& a, const Ref& b, int64_t k = 1) { Ref r = a; for (auto& [e, c] : b) { r[e] += k * c; if (!r[e]) r.erase(e); } return r; }
static Ref rMul(const Ref& a, const Ref& b) { Ref r; for (auto& [e, c] : a) for (auto& [f, d] : b) { r[e + f] += c * d; } for (auto it = r.begin(); it != r.end();) it = it->second ? ++it : r.erase(it); return r; }
static Ref rScale(const Ref& a, int64_t k) { Ref r; if (k) for (auto& [e, c] : a) r[e] = k * c; return r; }
static Ref rCompose(const Ref& a, const Ref& b) {
  Ref r, p{{0, 1}};
  uint64_t at = 0;
  for (auto& [e, c] : a) { while (at < e) { p = rMul(p, b); at++; } r = rAdd(r, p, c); }
  return r;
}
static std::string str(const Ref& r) { std::string s; for (auto& [e, c] : r) s += cat(c, "x", e, " "); return "{" + s + "}"; }

template <class P> struct Tr;
template <> struct Tr<IntPolynomial> {
  using M = IntMonomial;
  static int64_t c(const APInt& v) { return v.getSExtValue(); }
  static APInt k(int64_t v) { return APInt(64, v, true); }
  static const char* name() { return "int"; }
};
template <> struct Tr<FloatPolynomial> {
  using M = FloatMonomial;
  static int64_t c(const APFloat& v) { double d = v.convertToDouble(); return d == std::floor(d) ? (int64_t)d : INT64_MIN; }
  static APFloat k(int64_t v) { return APFloat((double)v); }
  static const char* name() { return "float"; }
};
template <class P> static P make(const Ref& r) {
  std::vector<typename Tr<P>::M> ms;
  for (auto& [e, c] : r) ms.emplace_back(c, e);
  return P(ms);
}
// The canonical form: strictly increasing exponents; zero coefficients only where `zeros` permits them.
template <class P> static bool read(const P& p, Ref& out, std::string& why, bool zeros = false) {
  bool first = true;
  uint64_t last = 0;
  out.clear();
  for (auto& t : p.getTerms()) {
    uint64_t e = t.getExponent().getZExtValue();
    if (!first && e <= last) { why = "terms are not in increasing order of degree"; return false; }
    first = false; last = e;
    int64_t c = Tr<P>::c(t.getCoefficient());
    if (!c && !zeros) { why = "a zero coefficient is kept"; return false; }
    if (c) out[e] = c;
  }
  return true;
}
template <class P> static void expect(const std::string& key, const std::string& id, const P& got, const Ref& want, bool zeros = false) {
  Ref g; std::string why;
  mc::eval();
  std::string k = cat(Tr<P>::name(), ":", key);
  if (!read(got, g, why, zeros)) { mc::violate(k, id + ": " + why); return; }
  if (g != want) { mc::violate(k, id + ": got " + str(g) + " expected " + str(want)); return; }
  if (!zeros) {
    if (got.isZero() != want.empty() || (bool)got == want.empty()) mc::violate(k, id + ": zero test is wrong");
    if (!want.empty() && got.getDegree() != want.rbegin()->first) mc::violate(k, id + ": degree is wrong");
    if (!(got == make<P>(want)) || got != make<P>(want)) mc::violate(k, id + ": unequal to the same polynomial");
    if (hash_value(got) != hash_value(make<P>(want))) mc::violate(k, id + ": equal polynomials hash differently");
  }
  mc::visit(str(want));
  mc::step();
}

template <class P> static void pairOps(const Ref& a, const Ref& b, const std::string& id) {
  std::string n = Tr<P>::name();
  if (!mc::begin(n + ":" + id)) return;
  P p = make<P>(a), q = make<P>(b);
  mc::doing("adding polynomials (" + n + ")"); expect("add", id, p.add(q), rAdd(a, b));
  mc::doing("subtracting polynomials (" + n + ")"); expect("sub", id, p.sub(q), rAdd(a, b, -1));
  mc::doing("multiplying polynomials (" + n + ")"); expect("mul", id, p.naiveMul(q), rMul(a, b));
  bool big = false;
  for (auto* z : {&a, &b}) for (auto& [e, c] : *z) big |= c > 1000;
  if (!a.empty() && a.rbegin()->first <= 6 && !(big && a.rbegin()->first > 2)) { mc::doing("composing polynomials (" + n + ")"); expect("compose", id, p.compose(q), rCompose(a, b)); }
  if ((p == q) != (a == b)) mc::violate(n + ":eq", id + ": equality is wrong");
  mc::outcome(str(rMul(a, b)));
  mc::trace();
}

template <class P> static std::string text(const Ref& r, const char* sep, const char* exp, const std::function<std::string(int64_t)>& num) {
  std::string s;
  for (auto& [e, c] : r) {
    if (!s.empty()) s += sep;
    std::string k = c == 1 && e >= 1 ? "" : num(c);
    s += k + (e == 0 ? "" : e == 1 ? "x" : cat("x", exp, e));
  }
  return s;
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  // all polynomials of degree <= 3 over {-2,-1,0,1,2}, plus sparse ones
  std::vector<Ref> small, tiny;
  mc::product({5, 5, 5, 5}, [&](const std::vector<int64_t>& v) {
    Ref r; bool t = true;
    for (int i = 0; i < 4; i++) if (v[i] != 2) { r[i] = v[i] - 2; }
    for (int i = 0; i < 4; i++) if (v[i] == 0 || v[i] == 4) t = false;
    small.push_back(r);
    if (t) tiny.push_back(r);
  });
  std::vector<Ref> sparse;
  mc::product({4, 4, 4}, [&](const std::vector<int64_t>& v) {
    const uint64_t ex[] = {0, 5, 17}; const int64_t co[] = {0, 1, -1, 1000003};
    Ref r; for (int i = 0; i < 3; i++) if (co[v[i]]) r[ex[i]] = co[v[i]];
    sparse.push_back(r);
  });
  auto all = [&](const std::vector<Ref>& A, const std::vector<Ref>& B, const char* tag) {
    for (size_t i = 0; i < A.size(); i++)
      for (size_t j = 0; j < B.size(); j++) {
        if (!mc::mine()) continue;
        std::string id = cat(tag, i, ",", j);
        pairOps<IntPolynomial>(A[i], B[j], id);
        pairOps<FloatPolynomial>(A[i], B[j], id);
      }
  };
  all(small, small, "s");
  all(small, tiny, "t");
  all(sparse, sparse, "p");
  all(sparse, tiny, "q");
  // chained histories: every sequence of operations on a running polynomial
  {
    std::vector<Ref> pool = {{{0, 1}, {1, 1}}, {{0, -1}, {1, 1}}, {{2, 1}, {0, -1}}, {{0, 2}}};
    int L = T ? 6 : 5;
    mc::product(std::vector<int64_t>(L, 16), [&](const std::vector<int64_t>& ops) {
      if (!mc::mine()) return;
      auto run = [&](auto tag) {
        using P = decltype(tag);
        std::string id = cat(Tr<P>::name(), ":hist:", mc::join(ops));
        if (!mc::begin(id)) return;
        Ref r{{1, 1}};
        P p = make<P>(r);
        for (auto o : ops) {
          const Ref& b = pool[o % 4];
          P q = make<P>(b);
          mc::doing("a sequence of polynomial operations");
          switch (o / 4) {
            case 0: p = p.add(q); r = rAdd(r, b); break;
            case 1: p = p.sub(q); r = rAdd(r, b, -1); break;
            case 2: p = p.naiveMul(q); r = rMul(r, b); break;
            default: p = p.monomialMul((int)(o % 4)).scale(Tr<P>::k(o % 4 == 3 ? -1 : o % 4 + 1)); {
              Ref s; for (auto& [e, c] : r) s[e + o % 4] = c * (o % 4 == 3 ? -1 : o % 4 + 1); r = s; }
          }
          expect("history", id, p, r);
        }
        mc::trace();
      };
      run(make<IntPolynomial>({}));
      run(make<FloatPolynomial>({}));
    });
  }
  // single-polynomial operations
  for (size_t i = 0; i < small.size() + sparse.size(); i++) {
    if (!mc::mine()) continue;
    const Ref& a = i < small.size() ? small[i] : sparse[i - small.size()];
    std::string id = cat("one:", i);
    if (!mc::begin(id)) continue;
    auto one = [&](auto tag) {
      using P = decltype(tag);
      using M = typename Tr<P>::M;
      P p = make<P>(a);
      for (int k : {0, 1, 2, 7}) {
        mc::doing("shifting a polynomial");
        Ref s; for (auto& [e, c] : a) s[e + k] = c;
        expect("shift", id, p.monomialMul(k), s);
      }
      for (int k : {1, -1, 3}) expect("scale", id, p.scale(Tr<P>::k(k)), rScale(a, k));
      { P z = p.scale(Tr<P>::k(0)); z.canonicalize(); expect("scale0", id, z, {}); }
      auto m = p.getCoeffMap();
      if (m.size() != a.size()) mc::violate(cat(Tr<P>::name(), ":map"), id + ": coefficient map has the wrong size");
      for (auto& [e, c] : a) { auto it = m.find(e); if (it == m.end() || Tr<P>::c(it->second.getCoefficient()) != c || it->second.getExponent() != e) mc::violate(cat(Tr<P>::name(), ":map"), id + ": coefficient map is wrong"); }
      // construction from unordered and from duplicated monomials
      std::vector<M> ms;
      for (auto& [e, c] : a) ms.emplace_back(c, e);
      std::vector<size_t> perm(ms.size());
      for (size_t k = 0; k < perm.size(); k++) perm[k] = k;
      do {
        std::vector<M> q;
        for (auto k : perm) q.push_back(ms[k]);
        auto r = P::fromMonomials(q);
        if (failed(r)) { mc::violate(cat(Tr<P>::name(), ":from"), id + ": distinct monomials rejected"); break; }
        expect("from", id, *r, a);
        for (size_t k = 0; k < q.size(); k++) {
          auto d = q; d.push_back(q[k]);
          if (succeeded(P::fromMonomials(d))) mc::violate(cat(Tr<P>::name(), ":from"), id + ": duplicate exponent accepted");
        }
      } while (std::next_permutation(perm.begin(), perm.end()));
      P withZeros = [&] { std::vector<M> z; for (uint64_t e = 0; e <= 20; e++) z.emplace_back(a.count(e) ? a.at(e) : 0, e); return P(z); }();
      withZeros.canonicalize();
      expect("canonicalize", id, withZeros, a);
    };
    one(make<IntPolynomial>({}));
    one(make<FloatPolynomial>({}));
    // dense coefficients, both directions
    int64_t deg = a.empty() ? -1 : (int64_t)a.rbegin()->first;
    for (int pad = 0; pad < 3; pad++) {
      std::vector<int64_t> ci(deg + 1 + pad, 0); std::vector<double> cf(deg + 1 + pad, 0);
      for (auto& [e, c] : a) ci[e] = c, cf[e] = (double)c;
      expect("fromCoefficients", id, IntPolynomial::fromCoefficients(ci), a);
      expect("fromCoefficients", id, FloatPolynomial::fromCoefficients(cf), a);
    }
    auto dense = make<IntPolynomial>(a).getDenseCoefficientVector();
    bool ok = (int64_t)dense.size() == deg + 1;
    for (int64_t e = 0; ok && e <= deg; e++) ok = dense[e].getBitWidth() == 64 && dense[e].getSExtValue() == (a.count(e) ? a.at(e) : 0);
    if (!ok) mc::violate("int:dense", id + ": dense coefficients are wrong");
    // text
    auto num = [](int64_t c) { return cat(c); };
    std::string got; llvm::raw_string_ostream os(got); os << make<IntPolynomial>(a); os.flush();
    std::string want = text<IntPolynomial>(a, " + ", "**", num);
    if (got != want) mc::violate("int:print", cat(id, ": printed '", got, "' expected '", want, "'"));
    if (make<IntPolynomial>(a).toIdentifier() != text<IntPolynomial>(a, "_", "", num)) mc::violate("int:identifier", id + ": identifier is wrong");
    mc::trace();
  }

  // Chebyshev basis: generation, conversion, composition with a line, decomposition.
  auto basis = [](int n) {
    std::vector<Ref> b{{{0, 1}}, {{1, 1}}};
    while ((int)b.size() < n) b.push_back(rAdd(rScale(rMul(b.back(), {{1, 1}}), 2), b[b.size() - 2], -1));
    b.resize(n);
    return b;
  };
  for (int n = 0; n <= 40; n++) {
    if (!mc::mine()) continue;
    std::string id = cat("basis:", n);
    if (!mc::begin(id)) continue;
    SmallVector<FloatPolynomial> got;
    mc::doing("generating Chebyshev polynomials");
    ChebyshevPolynomial::getChebyshevPolynomials(n, got);
    auto want = basis(n);
    if ((int)got.size() != n) { mc::violate("chebyshev:basis", cat(id, ": ", got.size(), " polynomials")); continue; }
    for (int i = 0; i < n; i++) expect("chebyshev-basis", cat(id, ":", i), got[i], want[i]);
    mc::trace();
  }
  auto chebRef = [&](const std::vector<int64_t>& c) { Ref r; auto b = basis((int)c.size()); for (size_t i = 0; i < c.size(); i++) r = rAdd(r, b[i], c[i]); return r; };
  mlir::MLIRContext ctx;
  for (int len = 1; len <= (T ? 9 : 8); len++)
    mc::product(std::vector<int64_t>(len, 3), [&](const std::vector<int64_t>& v) {
      if (!mc::mine()) return;
      std::string id = "cheb:" + mc::join(v, "");
      if (!mc::begin(id)) return;
      std::vector<int64_t> c; std::vector<double> d;
      const int64_t val[] = {0, 4, -6};
      for (auto x : v) c.push_back(val[x]), d.push_back((double)val[x]);
      ChebyshevPolynomial p{llvm::ArrayRef<double>(d)};
      Ref ref = chebRef(c);
      mc::doing("converting a Chebyshev series");
      expect("to-standard", id, p.toStandardBasis(), ref, true);
      auto attr = p.getCoefficientsArrayAttr(&ctx);
      bool ok = attr.size() == d.size();
      for (size_t i = 0; ok && i < d.size(); i++) ok = llvm::cast<mlir::FloatAttr>(attr[i]).getValueAsDouble() == d[i];
      if (!ok) mc::violate("chebyshev:attr", id + ": coefficient attribute is wrong");
      // H(ax+b) for small lines
      const std::pair<int64_t, int64_t> lines[] = {{1, 0}, {2, 0}, {-1, 0}, {1, 1}, {2, -1}, {-3, 2}};
      for (auto [a, b] : lines) {
        Ref line; if (b) line[0] = b; if (a) line[1] = a;
        mc::doing("composing a Chebyshev series with a line");
        ChebyshevPolynomial q = p.compose(make<FloatPolynomial>(line));
        bool integral = true;
        // the result coefficients may be half-integers: double everything before comparing
        SmallVector<APFloat> twice;
        for (auto& t : q.getTerms()) { twice.push_back(t * APFloat(1024.0)); double z = twice.back().convertToDouble(); integral &= z == std::floor(z); }
        if (!integral) { mc::violate("chebyshev:compose", id + ": not a dyadic rational"); continue; }
        expect("chebyshev-compose", cat(id, ":", a, "x+", b), ChebyshevPolynomial(twice).toStandardBasis(), rScale(rCompose(ref, line), 1024), true);
      }
      // p = sum_i coeffs[i] T_k^i
      for (int k = 2; k <= len + 1; k++) {
        mc::doing("decomposing a Chebyshev series");
        auto dec = decompose(d, k);
        Ref sum, tk{{0, 1}};
        Ref Tk = basis(k + 1)[k];
        bool shape = dec.generatorDegree == k;
        for (auto& part : dec.coeffs) {
          if ((int)part.size() > k) shape = false;
          std::vector<int64_t> pc; for (double x : part) pc.push_back((int64_t)x);
          sum = rAdd(sum, rMul(pc.empty() ? Ref{} : chebRef(pc), tk));
          tk = rMul(tk, Tk);
        }
        if (!shape) mc::violate("chebyshev:decompose", cat(id, ": k=", k, ": part of degree >= k"));
        if (sum != ref) mc::violate("chebyshev:decompose", cat(id, ": k=", k, ": parts sum to ", str(sum), " expected ", str(ref)));
        mc::step();
      }
      mc::outcome(str(ref));
      mc::trace();
    });
  // longer dense series
  for (int len = 1; len <= 40; len++)
    for (int k = 1; k <= len + 2; k++) {
      if (!mc::mine()) continue;
      std::string id = cat("dec:", len, ":", k);
      if (!mc::begin(id)) continue;
      std::vector<double> d; std::vector<int64_t> c;
      for (int i = 0; i < len; i++) { int64_t x = (i * i % 7 - 3); if (i == len - 1 && !x) x = 5; c.push_back(x); d.push_back((double)x); }
      mc::doing("decomposing a Chebyshev series");
      auto dec = decompose(d, k);
      auto powRef = [&](double x) {  // evaluate sum at a few exact points in integers mod 2^64: T_n(x) integer for integer x
        auto tn = [](int n, uint64_t x) { uint64_t a = 1, b = x; for (int i = 0; i < n; i++) { uint64_t t = 2 * x * b - a; a = b; b = t; } return a; };
        uint64_t X = (uint64_t)(int64_t)x, want = 0, got = 0, p = 1, Tk = tn(k, X);
        for (int i = 0; i < len; i++) want += (uint64_t)c[i] * tn(i, X);
        for (auto& part : dec.coeffs) { uint64_t s = 0; for (size_t i = 0; i < part.size(); i++) s += (uint64_t)(int64_t)part[i] * tn((int)i, X); got += s * p; p *= Tk; }
        return want == got;
      };
      for (int x = -20; x <= 20; x++) if (!powRef(x)) { mc::violate("chebyshev:decompose-long", cat(id, ": wrong at ", x)); break; }
      mc::trace();
    }
  return mc::finish();
}
