// Meaning of the packed-ciphertext operations (tensor_ext), and packing of values by layouts, for the checks of the passes
// between data-semantic tensors and ciphertext-semantic tensors.
#ifndef VERIF_LIB_CTMC_H_
#define VERIF_LIB_CTMC_H_
#include "lib/Dialect/TensorExt/IR/TensorExtAttributes.h"
#include "lib/Dialect/TensorExt/IR/TensorExtDialect.h"
#include "lib/Dialect/TensorExt/IR/TensorExtOps.h"
#include "layoutref.h"
#include "passmc.h"

namespace ct {
using namespace mlir;
using namespace mlir::heir;
using interp::Machine;
using interp::Sc;
using interp::V;
using interp::Vs;
using lr::Pt;

// The points of a layout attribute: (element index) ++ (ciphertext, slot).  A composite layout is the composition of its parts.
inline lr::Set points(Attribute a) {
  if (auto l = dyn_cast<tensor_ext::LayoutAttr>(a)) {
    static std::map<void*, lr::Set> memo;
    auto it = memo.find((void*)a.getAsOpaquePointer());
    if (it == memo.end()) it = memo.emplace((void*)a.getAsOpaquePointer(), lr::pts(l.getIntegerRelation())).first;
    return it->second;
  }
  if (auto arr = dyn_cast<ArrayAttr>(a)) {
    lr::Set acc = points(arr[0]);
    size_t nx = cast<tensor_ext::LayoutAttr>(arr[0]).getIntegerRelation().getNumDomainVars(), ny = cast<tensor_ext::LayoutAttr>(arr[0]).getIntegerRelation().getNumRangeVars();
    for (size_t k = 1; k < arr.size(); k++) {
      acc = lr::compose(acc, points(arr[k]), nx, ny);
      ny = cast<tensor_ext::LayoutAttr>(arr[k]).getIntegerRelation().getNumRangeVars();
    }
    return acc;
  }
  if (auto d = dyn_cast<DenseIntElementsAttr>(a)) {
    lr::Set s;
    Pt p;
    for (auto v : d.getValues<APInt>()) { p.push_back(v.getSExtValue()); if (p.size() == 4) { s.insert(p); p.clear(); } }
    return s;
  }
  throw interp::Unsupported("layout attribute");
}
// Several sources may go to one target only when they hold the same value (a replicated layout), so that any of them may be taken.
inline bool remapOnce(const lr::Set& s, const V& in, V& out) {
  std::set<Pt> seen;
  for (auto& p : s) {
    Sc x = in.at({p[0], p[1]});
    if (!seen.insert({p[2], p[3]}).second && !(x.refines(out.at({p[2], p[3]})))) return false;
    out.set({p[2], p[3]}, x);
  }
  return true;
}
inline Sc zero(Type t) { return isa<FloatType>(t) ? Sc::fl(0) : Sc::in(0); }

// Packs a value by a layout into shape [.., slots]; unmapped slots hold zero.  `bad` reports a slot claimed by two elements.
inline V pack(const V& v, Attribute layout, std::vector<int64_t> shape, Type elem, std::string* bad = nullptr) {
  V r = V::tensor(shape, {});
  r.d = std::make_shared<std::vector<Sc>>(r.size(), zero(elem));
  size_t rank = v.shape.size(), skip = rank ? 0 : SIZE_MAX;
  std::map<Pt, Pt> owner;
  for (auto& p : points(layout)) {
    size_t nd = p.size() - shape.size();
    Pt e(p.begin(), p.begin() + nd), t(p.begin() + nd, p.end());
    auto [it, fresh] = owner.emplace(t, e);
    if (!fresh && bad) *bad = mc::cat("slot (", mc::join(t), ") holds two elements");
    r.set(t, skip == SIZE_MAX ? v.sc() : v.at(e));
  }
  return r;
}

// rotate_and_reduce: sum over i of P(i) * rotate(v, i * period)
inline V rotateAndReduce(Machine& M, const V& v, const V* pts, int64_t period, int64_t steps, StringRef op, Type t) {
  int64_t n = v.shape.back();
  auto rot = [&](int64_t k) {
    V r = v;
    std::vector<Sc> d;
    v.each([&](llvm::ArrayRef<int64_t> ix) { std::vector<int64_t> j(ix.begin(), ix.end()); j.back() = (j.back() + k) % n; d.push_back(v.at(j)); });
    return V::tensor(v.shape, d);
  };
  StringRef mul = isa<FloatType>(t) ? "mulf" : "muli", red = op.empty() ? (isa<FloatType>(t) ? "addf" : "addi") : op.split('.').second;
  V acc;
  for (int64_t i = 0; i < steps; i++) {
    V x = rot(i * period);
    if (pts)
      for (int64_t k = 0; k < (int64_t)x.d->size(); k++) (*x.d)[k] = M.binary(mul, (*x.d)[k], (*pts->d)[i * x.d->size() + k], t, nullptr);
    if (!i) { acc = x; continue; }
    for (size_t k = 0; k < x.d->size(); k++) (*acc.d)[k] = M.binary(red, (*acc.d)[k], (*x.d)[k], t, nullptr);
  }
  return acc;
}

// Data-semantic meaning (assign_layout and convert_layout change no value) plus the ciphertext-semantic operations.
inline bool ops(Machine& M, Operation* op, const Vs& in, Vs& out) {
  if (isa<tensor_ext::AssignLayoutOp, tensor_ext::ConvertLayoutOp>(op)) { out.push_back(in[0]); return true; }
  if (auto r = dyn_cast<tensor_ext::RemapOp>(op)) {
    Type t = Machine::elem(r.getType());
    V o = V::tensor(in[0].shape, {});
    o.d = std::make_shared<std::vector<Sc>>(o.size(), zero(t));
    if (!remapOnce(points(r.getPermutation()), in[0], o)) throw interp::UB("remap target claimed twice");
    out.push_back(o);
    return true;
  }
  if (auto r = dyn_cast<tensor_ext::RotateAndReduceOp>(op)) {
    Type t = Machine::elem(r.getOutput().getType());
    auto red = r.getReduceOp();
    out.push_back(rotateAndReduce(M, in[0], r.getPlaintexts() ? &in[1] : nullptr, r.getPeriod().getZExtValue(), r.getSteps().getZExtValue(), red ? red->getValue() : StringRef(), t));
    return true;
  }
  return false;
}
inline void setup(Machine& M) { M.ext = ops; M.exactFloats = true; }
}  // namespace ct
#endif
