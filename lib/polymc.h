// Meaning of polynomial operations.  A polynomial in a ring is the tensor of its coefficients (coefficient form) or of its values
// at psi^(2k+1), k = 0..N-1 (evaluation form), over residues modulo q, residue tuples, or wrapping integers.
#ifndef VERIF_LIB_POLYMC_H_
#define VERIF_LIB_POLYMC_H_
#include "lib/Dialect/Polynomial/IR/PolynomialAttributes.h"
#include "lib/Dialect/Polynomial/IR/PolynomialDialect.h"
#include "lib/Dialect/Polynomial/IR/PolynomialOps.h"
#include "lib/Dialect/Polynomial/IR/PolynomialTypes.h"
#include "modmc.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"

namespace po {
using namespace mlir;
using namespace mlir::heir;
using interp::I128;
using interp::Machine;
using interp::Sc;
using interp::V;
using interp::Vs;
using Vec = std::vector<I128>;

inline I128 sapint(const llvm::APInt& a) {
  auto v = a.sextOrTrunc(128);
  return (I128)(((unsigned __int128)v.extractBitsAsZExtValue(64, 64) << 64) | v.extractBitsAsZExtValue(64, 0));
}
inline I128 power(I128 b, I128 e, I128 q) { I128 r = 1 % q; for (; e; e--) r = mm::mulmod(r, b, q); return r; }
inline I128 primitiveRoot(I128 q, int64_t n) {  // smallest primitive n-th root of unity, 0 if none
  for (I128 x = 2; x < q; x++) {
    I128 p = x;
    int64_t k = 1;
    while (p != 1 && k < n) p = mm::mulmod(p, x, q), k++;
    if (p == 1 && k == n) return x;
  }
  return 0;
}

struct Ring {
  Vec q;             // moduli; empty for machine integers
  unsigned w = 0;    // width of machine integers
  int64_t N = 0;
  Vec mod;           // polynomial modulus, dense, degree N
  bool eval = false, rns = false;
  size_t L() const { return q.empty() ? 1 : q.size(); }
  I128 red(I128 v, size_t l) const { return q.empty() ? interp::wrap(v, w) : mm::pmod(v, q[l]); }
  I128 mul(I128 a, I128 b, size_t l) const { return q.empty() ? interp::wrap(a * b, w) : mm::mulmod(a, b, q[l]); }
  // The remainder of dividing by the modulus.
  Vec rem(Vec a, size_t l) const {
    I128 lead = red(mod[N], l);
    if (q.empty() && lead != 1) throw interp::UB("division by a non-monic integer polynomial");
    I128 inv = q.empty() ? 1 : mm::inverse(lead, q[l]);
    if (!q.empty() && inv == 0 && q[l] != 1) throw interp::UB("the leading coefficient is not invertible");
    for (int64_t d = (int64_t)a.size() - 1; d >= N; d--) {
      I128 c = mul(a[d], inv, l);
      if (c) for (int64_t k = 0; k <= N; k++) a[d - N + k] = red(a[d - N + k] - mul(c, red(mod[k], l), l), l);
    }
    a.resize(N, 0);
    return a;
  }
};
inline Ring ring(Type t) {
  Ring r;
  auto p = cast<polynomial::PolynomialType>(getElementTypeOrSelf(t));
  auto c = p.getRing().getCoefficientType();
  r.q = mm::moduli(c);
  r.rns = isa<rns::RNSType>(c);
  if (auto i = dyn_cast<IntegerType>(c)) r.w = i.getWidth();
  else if (r.q.empty()) throw interp::Unsupported("coefficient type");
  r.eval = p.getForm() == polynomial::Form::EVAL;
  if (!p.getRing().getPolynomialModulus()) throw interp::Unsupported("ring without modulus");
  auto m = p.getRing().getPolynomialModulus().getPolynomial();
  r.N = m.getDegree();
  r.mod.assign(r.N + 1, 0);
  for (auto& t : m.getTerms()) r.mod[t.getExponent().getZExtValue()] = sapint(t.getCoefficient());
  return r;
}
// Column l of a polynomial; throws on poison or non-residues.
inline Vec column(const Ring& r, const V& v, size_t l) {
  Vec d;
  auto f = v.flat();
  for (size_t k = l; k < f.size(); k += r.L()) {
    if (f[k].k != Sc::I) throw interp::UB("polynomial coefficient is poison");
    if (!r.q.empty() && (f[k].i < 0 || f[k].i >= r.q[l])) throw interp::UB("polynomial coefficient is not a residue");
    d.push_back(f[k].i);
  }
  return d;
}
inline V assemble(const Ring& r, const std::vector<Vec>& cols) {
  std::vector<Sc> d;
  for (size_t k = 0; k < cols[0].size(); k++) for (auto& c : cols) d.push_back(Sc::in(c[k]));
  std::vector<int64_t> sh{(int64_t)cols[0].size()};
  if (r.rns) sh.push_back((int64_t)r.L());
  return V::tensor(sh, d);
}
inline V each(const Ring& r, const std::function<Vec(size_t)>& f) { std::vector<Vec> c; for (size_t l = 0; l < r.L(); l++) c.push_back(f(l)); return assemble(r, c); }
inline Vec product(const Ring& r, const Vec& a, const Vec& b, size_t l) {
  Vec c(a.size() + b.size(), 0);
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) c[i + j] = r.red(c[i + j] + r.mul(a[i], b[j], l), l);
  return r.rem(c, l);
}
// Roots of unity per modulus: the attribute's, or the smallest.
inline Vec roots(const Ring& r, Operation* op, bool inverse) {
  Vec w;
  if (r.q.empty()) throw interp::Unsupported("ntt over integers");
  for (int64_t k = 0; k <= r.N; k++) if (r.mod[k] != (k == 0 || k == r.N)) throw interp::UB("ntt in a ring that is not x^N + 1");
  auto a = op->getAttrOfType<polynomial::PrimitiveRootAttr>("root");
  if (a) {
    if (auto m = dyn_cast<mod_arith::ModArithAttr>(a.getValue())) w.push_back(mm::apint(m.getValue().getValue()));
    else for (auto l : cast<rns::RNSAttr>(a.getValue()).getValues()) w.push_back(mm::apint(cast<mod_arith::ModArithAttr>(l).getValue().getValue()));
  } else
    for (auto q : r.q) {
      I128 x = primitiveRoot(q, 2 * r.N);
      if (!x) throw interp::UB("no root of unity");
      w.push_back(inverse ? mm::inverse(x, q) : x);
    }
  return w;
}
inline V transform(const Ring& r, const V& v, Vec w, bool inverse) {
  return each(r, [&](size_t l) {
    I128 q = r.q[l];
    auto a = column(r, v, l);
    Vec o(r.N, 0);
    I128 n = mm::inverse(r.N % q, q);
    for (int64_t k = 0; k < r.N; k++)
      for (int64_t j = 0; j < r.N; j++) {
        // forward: sum a_j w^((2k+1) j); inverse (w the inverse root): 1/N sum a_j w^((2j+1) k)
        I128 e = inverse ? (2 * j + 1) * k : (2 * k + 1) * j;
        o[k] = (o[k] + mm::mulmod(a[j], power(w[l], e, q), q)) % q;
      }
    if (inverse) for (auto& x : o) x = mm::mulmod(x, n, q);
    return o;
  });
}

// Tensor operations on tensors of residue tuples: run on tensors of numbers that name the tuples.
inline bool boxed(Machine& M, Operation* op, const Vs& in, Vs& out) {
  auto elem = [](Type t) { return dyn_cast<rns::RNSType>(getElementTypeOrSelf(t)); };
  rns::RNSType rt;
  for (Type t : op->getOperandTypes()) if (elem(t)) rt = elem(t);
  for (Type t : op->getResultTypes()) if (elem(t)) rt = elem(t);
  if (!rt) return false;
  int64_t L = rt.getBasisTypes().size();
  std::vector<std::vector<Sc>> table{std::vector<Sc>(L)};  // 0: undefined
  auto box = [&](const V& v) {
    auto f = v.flat();
    std::vector<Sc> d;
    for (size_t k = 0; k < f.size(); k += L) { table.emplace_back(f.begin() + k, f.begin() + k + L); d.push_back(Sc::in(table.size() - 1)); }
    std::vector<int64_t> sh(v.shape.begin(), v.shape.end() - 1);
    return sh.empty() ? V::scalar(d[0]) : V::tensor(sh, d);
  };
  auto unbox = [&](const V& v) {
    std::vector<Sc> d;
    for (auto& s : v.flat()) for (auto& x : table[s.k == Sc::I ? (size_t)s.i : 0]) d.push_back(x);
    auto sh = v.shape;
    sh.push_back(L);
    return V::tensor(sh, d);
  };
  Vs bin, bout;
  for (size_t k = 0; k < in.size(); k++) bin.push_back(elem(op->getOperand(k).getType()) ? box(in[k]) : in[k]);
  if (auto pad = dyn_cast<tensor::PadOp>(op)) {
    auto lo = pad.getStaticLow(), hi = pad.getStaticHigh();
    if (lo.size() != 1 || ShapedType::isDynamic(lo[0]) || ShapedType::isDynamic(hi[0])) throw interp::Unsupported("pad of residue tuples");
    auto f = bin[0].flat();
    std::vector<Sc> d;
    auto val = [&](int64_t k) { d.push_back(box(M.runRegion(op->getRegion(0), {V::scalar(Sc::in(k))})[0]).sc()); };
    for (int64_t k = 0; k < lo[0]; k++) val(k);
    d.insert(d.end(), f.begin(), f.end());
    for (int64_t k = 0; k < hi[0]; k++) val(lo[0] + f.size() + k);
    bout.push_back(V::tensor({(int64_t)d.size()}, d));
  } else
    M.tensor(op, op->getName().getStringRef().split('.').second, bin, bout);
  for (size_t k = 0; k < bout.size(); k++) out.push_back(elem(op->getResult(k).getType()) ? unbox(bout[k]) : bout[k]);
  return true;
}

inline bool ops(Machine& M, Operation* op, const Vs& in, Vs& out) {
  StringRef full = op->getName().getStringRef();
  if (full.starts_with("tensor.")) return boxed(M, op, in, out);
  if (!full.starts_with("polynomial.")) return mm::ops(M, op, in, out);
  StringRef n = full.split('.').second;
  if (n == "yield") throw interp::Unsupported("yield");
  auto pty = [&](Type t) { return isa<polynomial::PolynomialType>(getElementTypeOrSelf(t)); };
  Type rt = op->getResult(0).getType();
  for (Type t : op->getOperandTypes()) if (isa<ShapedType>(t) && pty(t)) throw interp::Unsupported("tensor of polynomials");
  Ring r = ring(pty(rt) ? rt : op->getOperand(0).getType());
  auto scal = [&](const V& v, size_t l) { auto f = v.flat(); if (f.size() != r.L()) throw interp::UB("scalar shape"); if (f[l].k != Sc::I) throw interp::UB("poison scalar"); if (!r.q.empty() && (f[l].i < 0 || f[l].i >= r.q[l])) throw interp::UB("scalar is not a residue"); return f[l].i; };
  if (n == "constant") {
    Attribute a = op->getAttr("value");
    if (auto c = dyn_cast<polynomial::RNSPolynomialAttr>(a)) {
      Vec d;
      for (auto x : c.getCoefficients().getValues<APInt>()) d.push_back(mm::apint(x));
      if ((int64_t)d.size() != r.N * (int64_t)r.L()) throw interp::UB("shape of an RNS constant");
      out.push_back(each(r, [&](size_t l) { Vec v; for (int64_t k = 0; k < r.N; k++) v.push_back(r.red(d[l * r.N + k], l)); return v; }));
      return true;
    }
    auto c = dyn_cast<polynomial::TypedIntPolynomialAttr>(a);
    if (!c) throw interp::Unsupported("constant");
    auto p = c.getPolynomial();
    out.push_back(each(r, [&](size_t l) {
      Vec v(r.N, 0);
      for (auto& t : p.getTerms()) {
        size_t e = t.getExponent().getZExtValue();
        if (e >= v.size()) v.resize(e + 1, 0);
        v[e] = r.red(sapint(t.getCoefficient()), l);
      }
      if ((int64_t)v.size() > r.N && r.eval) throw interp::UB("more values than points");
      return r.rem(v, l);
    }));
    return true;
  }
  if (n == "add" || n == "sub") { out.push_back(each(r, [&](size_t l) { auto a = column(r, in[0], l), b = column(r, in[1], l); for (size_t k = 0; k < a.size(); k++) a[k] = r.red(n == "add" ? a[k] + b[k] : a[k] - b[k], l); return a; })); return true; }
  if (n == "mul") {
    out.push_back(each(r, [&](size_t l) {
      auto a = column(r, in[0], l), b = column(r, in[1], l);
      if (!r.eval) return product(r, a, b, l);
      for (size_t k = 0; k < a.size(); k++) a[k] = r.mul(a[k], b[k], l);
      return a;
    }));
    return true;
  }
  if (n == "mul_scalar") { out.push_back(each(r, [&](size_t l) { auto a = column(r, in[0], l); I128 s = scal(in[1], l); for (auto& x : a) x = r.mul(x, s, l); return a; })); return true; }
  if (n == "monomial" || n == "monic_monomial_mul") {
    int64_t d = in[1].ix();
    if (d < 0 || (d >= r.N && n == "monomial")) throw interp::UB("degree of a monomial");
    if (r.eval) throw interp::UB("monomial in evaluation form");
    out.push_back(each(r, [&](size_t l) {
      Vec m(d + 1, 0);
      m[d] = n == "monomial" ? scal(in[0], l) : r.red(1, l);
      return n == "monomial" ? r.rem(m, l) : product(r, column(r, in[0], l), m, l);
    }));
    return true;
  }
  if (n == "leading_term") {
    int64_t d = -1;
    for (size_t l = 0; l < r.L(); l++) { auto a = column(r, in[0], l); for (int64_t k = 0; k < r.N; k++) if (a[k]) d = std::max(d, k); }
    if (d < 0) throw interp::UB("leading term of the zero polynomial");
    out.push_back(V::scalar(Sc::in(d)));
    std::vector<Sc> c;
    for (size_t l = 0; l < r.L(); l++) c.push_back(Sc::in(column(r, in[0], l)[d]));
    out.push_back(r.rns ? V::tensor({(int64_t)r.L()}, c) : V::scalar(c[0]));
    return true;
  }
  if (n == "from_tensor") { out.push_back(each(r, [&](size_t l) { auto a = column(r, in[0], l); a.resize(r.N, 0); return a; })); return true; }
  if (n == "to_tensor") { out.push_back(in[0]); return true; }
  if (n == "ntt" || n == "intt") { out.push_back(transform(r, in[0], roots(r, op, n == "intt"), n == "intt")); return true; }
  if (n == "extract_slice") {
    Ring s = ring(op->getOperand(0).getType());
    size_t start = cast<IntegerAttr>(op->getAttr("start")).getValue().getZExtValue();
    out.push_back(each(r, [&](size_t l) { return column(s, in[0], start + l); }));
    return true;
  }
  if (n == "apply_coefficientwise") {
    Ring s = ring(op->getOperand(0).getType());
    if (s.rns || r.rns) throw interp::Unsupported("apply over residue tuples");
    auto a = column(s, in[0], 0);
    std::vector<Sc> d;
    for (int64_t k = 0; k < s.N; k++) d.push_back(M.runRegion(op->getRegion(0), {V::scalar(Sc::in(a[k])), V::scalar(Sc::in(k))})[0].sc());
    out.push_back(V::tensor({s.N}, d));
    return true;
  }
  throw interp::Unsupported(full.str());
}
inline void setup(Machine& M) { M.ext = ops; }
}  // namespace po
#endif
