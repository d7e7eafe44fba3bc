// Meaning of modular-arithmetic and RNS operations.  A residue is the integer in [0, q); a value outside (a raw encapsulated
// integer, an unreduced constant) is kept as it is until reduced or lifted, and operations that demand residues make poison of it.
// An RNS value is the tensor of its residues (innermost dimension), as its lowering has it.
#ifndef VERIF_LIB_MODMC_H_
#define VERIF_LIB_MODMC_H_
#include "lib/Dialect/ModArith/IR/ModArithAttributes.h"
#include "lib/Dialect/ModArith/IR/ModArithDialect.h"
#include "lib/Dialect/ModArith/IR/ModArithOps.h"
#include "lib/Dialect/ModArith/IR/ModArithTypes.h"
#include "lib/Dialect/RNS/IR/RNSAttributes.h"
#include "lib/Dialect/RNS/IR/RNSDialect.h"
#include "lib/Dialect/RNS/IR/RNSOps.h"
#include "lib/Dialect/RNS/IR/RNSTypes.h"
#include "passmc.h"

namespace mm {
using namespace mlir;
using namespace mlir::heir;
using interp::I128;
using interp::Machine;
using interp::Sc;
using interp::V;
using interp::Vs;

inline I128 apint(const llvm::APInt& a) {
  auto v = a.zextOrTrunc(128);
  return (I128)(((unsigned __int128)v.extractBitsAsZExtValue(64, 64) << 64) | v.extractBitsAsZExtValue(64, 0));
}
// The moduli of a (container of a) modular type, one per residue.
inline std::vector<I128> moduli(Type t) {
  t = getElementTypeOrSelf(t);
  std::vector<I128> q;
  if (auto m = dyn_cast<mod_arith::ModArithType>(t)) q.push_back(apint(m.getModulus().getValue()));
  if (auto r = dyn_cast<rns::RNSType>(t)) for (auto b : r.getBasisTypes()) q.push_back(apint(cast<mod_arith::ModArithType>(b).getModulus().getValue()));
  return q;
}
inline I128 pmod(I128 v, I128 q) { v %= q; return v < 0 ? v + q : v; }
inline I128 centered(I128 v, I128 q) { v = pmod(v, q); return v >= (q + 1) / 2 ? v - q : v; }  // in [-q/2, q/2)
inline I128 inverse(I128 a, I128 q) { for (I128 x = 0; x < q; x++) if (pmod(a * x, q) == 1 % q) return x; return 0; }
inline I128 mulmod(I128 a, I128 b, I128 q) {  // a, b in [0, q)
  if (q < ((I128)1 << 62)) return a * b % q;
  I128 r = 0;
  for (; b; b >>= 1) { if (b & 1) r = (r + a) % q; a = (a + a) % q; }
  return r;
}
inline V like(const V& v, std::vector<Sc> d) { return v.shape.empty() ? V::scalar(d[0]) : V::tensor(v.shape, std::move(d)); }
// The integer in the product space that has the given residues.
inline I128 crt(const std::vector<I128>& r, const std::vector<I128>& q) {
  I128 Q = 1, s = 0;
  for (auto x : q) Q *= x;
  for (size_t k = 0; k < q.size(); k++) { I128 m = Q / q[k]; s = (s + mulmod(mulmod(r[k] % Q, inverse(m % q[k], q[k]), Q), m % Q, Q)) % Q; }
  return s;
}

inline bool ops(Machine& M, Operation* op, const Vs& in, Vs& out) {
  StringRef full = op->getName().getStringRef();
  if (!full.starts_with("mod_arith.") && !full.starts_with("rns.")) return false;
  StringRef n = full.split('.').second;
  Type rt = op->getNumResults() ? op->getResult(0).getType() : Type();
  auto q = moduli(rt);
  auto map = [&](const std::function<Sc(std::vector<Sc>&, size_t)>& f) {
    std::vector<Sc> d;
    size_t N = in[0].flat().size();
    std::vector<std::vector<Sc>> a;
    for (auto& v : in) a.push_back(v.flat());
    for (size_t k = 0; k < N; k++) { std::vector<Sc> x; for (auto& v : a) x.push_back(v[k]); d.push_back(f(x, k)); }
    out.push_back(like(in[0], d));
  };
  if (full == "mod_arith.constant") {
    Attribute v = op->getAttr("value");
    auto one = [&](const APInt& a) { return Sc::in(apint(a)); };
    if (auto i = dyn_cast<IntegerAttr>(v)) out.push_back(V::scalar(Sc::in(pmod(apint(i.getValue()), q[0]))));
    else {
      std::vector<Sc> d;
      for (auto a : cast<DenseIntElementsAttr>(v).getValues<APInt>()) d.push_back(Sc::in(pmod(one(a).i, q[0])));
      out.push_back(V::tensor(cast<ShapedType>(rt).getShape().vec(), d));
    }
    return true;
  }
  if (full == "rns.constant") {
    auto a = cast<rns::RNSAttr>(op->getAttr("value"));
    std::vector<Sc> d;
    for (size_t k = 0; k < q.size(); k++) {
      auto l = a.getValues()[k];
      auto m = dyn_cast<mod_arith::ModArithAttr>(l);
      d.push_back(Sc::in(pmod(apint(m ? m.getValue().getValue() : cast<IntegerAttr>(l).getValue()), q[k])));
    }
    out.push_back(V::tensor({(int64_t)q.size()}, d));
    return true;
  }
  if (n == "add" || n == "sub" || n == "mul" || n == "mac") {
    map([&](std::vector<Sc>& x, size_t k) {
      I128 m = q[k % q.size()];
      for (auto& s : x) if (s.k != Sc::I || s.i < 0 || s.i >= m) return Sc();
      if (n == "add") return Sc::in((x[0].i + x[1].i) % m);
      if (n == "sub") return Sc::in((x[0].i - x[1].i + m) % m);
      if (n == "mul") return Sc::in(mulmod(x[0].i, x[1].i, m));
      return Sc::in((mulmod(x[0].i, x[1].i, m) + x[2].i) % m);
    });
    return true;
  }
  if (n == "reduce") { map([&](std::vector<Sc>& x, size_t k) { return x[0].k == Sc::I ? Sc::in(pmod(x[0].i, q[k % q.size()])) : Sc(); }); return true; }
  if (n == "encapsulate") { out.push_back(in[0]); return true; }
  if (n == "lift") {
    auto qi = moduli(op->getOperand(0).getType());
    bool c = cast<mod_arith::LiftOp>(op).getLiftType() == mod_arith::LiftType::CENTERED;
    map([&](std::vector<Sc>& x, size_t k) { I128 m = qi[k % qi.size()]; return x[0].k != Sc::I ? Sc() : Sc::in(c ? centered(x[0].i, m) : pmod(x[0].i, m)); });
    return true;
  }
  if (n == "subifge") {
    unsigned w = interp::width(getElementTypeOrSelf(rt));
    map([&](std::vector<Sc>& x, size_t) { return interp::zext(x[0].i, w) >= interp::zext(x[1].i, w) ? Sc::in(interp::wrap(x[0].i - x[1].i, w)) : x[0]; });
    return true;
  }
  if (n == "mod_switch") {
    auto qi = moduli(op->getOperand(0).getType());
    auto a = in[0].flat();
    for (size_t k = 0; k < a.size(); k++) if (a[k].k != Sc::I || a[k].i < 0 || a[k].i >= qi[k % qi.size()]) { for (auto& s : a) s = Sc(); break; }
    std::vector<Sc> d;
    std::vector<int64_t> shape = in[0].shape;
    if (qi.size() > 1) shape.pop_back();
    if (q.size() > 1) shape.push_back(q.size());
    for (size_t k = 0; k < a.size(); k += qi.size()) {
      I128 v;
      std::vector<I128> r;
      bool ok = a[k].k == Sc::I;
      for (size_t j = 0; ok && j < qi.size(); j++) r.push_back(a[k + j].i);
      if (ok) v = qi.size() > 1 ? crt(r, qi) : q.size() > 1 ? r[0] : centered(r[0], qi[0]);
      for (auto m : q) d.push_back(ok ? Sc::in(pmod(v, m)) : Sc());
    }
    out.push_back(shape.empty() ? V::scalar(d[0]) : V::tensor(shape, d));
    return true;
  }
  if (n == "extract_residue" || n == "extract_slice") {
    auto qi = moduli(op->getOperand(0).getType());
    auto get = [&](const char* s) { return cast<IntegerAttr>(op->getAttr(s)).getValue().getSExtValue(); };
    int64_t start = n == "extract_slice" ? get("start") : get("index"), size = n == "extract_slice" ? get("size") : 1;
    auto a = in[0].flat();
    std::vector<Sc> d;
    for (size_t k = 0; k < a.size(); k++) { int64_t j = k % qi.size(); if (j >= start && j < start + size) d.push_back(a[k]); }
    std::vector<int64_t> shape = in[0].shape;
    if (n == "extract_slice") shape.back() = size; else shape.pop_back();
    out.push_back(shape.empty() ? V::scalar(d[0]) : V::tensor(shape, d));
    return true;
  }
  if (n == "pack") {
    std::vector<Sc> d;
    for (auto& v : in) d.push_back(v.sc());
    out.push_back(V::tensor({(int64_t)d.size()}, d));
    return true;
  }
  if (n == "convert_basis") {
    auto qi = moduli(op->getOperand(0).getType());
    std::vector<I128> r;
    I128 Q = 1;
    for (size_t k = 0; k < qi.size(); k++) { auto s = in[0].flat()[k]; if (s.k != Sc::I || s.i < 0 || s.i >= qi[k]) throw interp::UB("convert_basis of a non-residue"); r.push_back(s.i); Q *= qi[k]; }
    I128 v = centered(crt(r, qi), Q);
    std::vector<Sc> d;
    for (auto m : q) d.push_back(Sc::in(pmod(v, m)));
    out.push_back(V::tensor({(int64_t)q.size()}, d));
    return true;
  }
  throw interp::Unsupported(full.str());
}
inline void setup(Machine& M) { M.ext = ops; }
}  // namespace mm
#endif
