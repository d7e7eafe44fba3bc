// Backend programs (OpenFHE, Lattigo) on a heap of mutable ciphertexts.
#ifndef VERIF_LIB_BEMC_H_
#define VERIF_LIB_BEMC_H_
#include "lib/Dialect/Openfhe/IR/OpenfheOps.h"
#include "lib/Dialect/Openfhe/IR/OpenfheTypes.h"
#include "passmc.h"

namespace be {
using namespace pm;
using namespace mlir::heir;
static const int64_t T = 65537;
static const int N = 4;

// One ciphertext, plaintext or digit decomposition as the library holds it: an object that variables refer to.
struct Obj { std::vector<int64_t> v; int64_t depth = 0; bool pt = false; };
using Heap = std::vector<Obj>;

inline int64_t md(int64_t x) { x %= T; return x < 0 ? x + T : x; }

struct Backend {
  Heap heap;
  int inplace = 0;
  int make(Obj o) { heap.push_back(std::move(o)); return (int)heap.size() - 1; }
  static bool isCt(Type t) { auto s = text(t); return s.find("ciphertext") != std::string::npos && s.find("plaintext") == std::string::npos; }
  static std::string text(Type t) { std::string s; llvm::raw_string_ostream o(s); t.print(o); return s; }
  Obj& at(const V& v) { auto i = v.ix(); if (i < 0 || i >= (int64_t)heap.size()) throw interp::UB("a value that is no ciphertext"); return heap[i]; }

  bool step(Operation* op, const Vs& in, Vs& out) {
    StringRef full = op->getName().getStringRef();
    bool lat = full.starts_with("lattigo.");
    if (!lat && !full.starts_with("openfhe.")) return false;
    StringRef n = full.rsplit('.').second;
    bool ip;
    if (lat) { ip = !n.ends_with("_new") && n != "bootstrap"; n.consume_back("_new"); }
    else ip = n.consume_back("_inplace");
    std::vector<int> data;  // operands that are ciphertexts or plaintexts
    int dst = -1;
    for (int k = 1; k < (int)in.size(); k++) {
      auto s = text(op->getOperand(k).getType());
      if (s.find("ciphertext") != std::string::npos || s.find("plaintext") != std::string::npos) data.push_back(k);
    }
    if (ip) {
      if (lat) { dst = data.back(); data.pop_back(); }
      else for (int k : data) if (isCt(op->getOperand(k).getType())) { dst = k; break; }
      if (dst < 0) throw interp::Unsupported("in-place without destination: " + full.str());
      inplace++;
    }
    Obj r;
    auto x = [&](int k) { return at(in[data.at(k)]); };
    auto un = [&](auto f) { r = x(0); for (auto& e : r.v) e = md(f(e)); };
    auto bin = [&](auto f) { Obj a = x(0), b = x(1); r.depth = a.pt ? b.depth : b.pt ? a.depth : std::max(a.depth, b.depth); r.v.resize(N); for (int k = 0; k < N; k++) r.v[k] = md(f(a.v[k], b.v[k])); };
    auto rot = [&](int64_t by) { Obj a = x(0); r = a; for (int k = 0; k < N; k++) r.v[k] = a.v[(((k + by) % N) + N) % N]; };
    auto attr = [&](StringRef a) { auto i = op->getAttrOfType<IntegerAttr>(a); return i ? i.getValue().getSExtValue() : (int64_t)1; };
    if (n == "add" || n == "add_plain") bin([](int64_t a, int64_t b) { return a + b; });
    else if (n == "sub" || n == "sub_plain") bin([](int64_t a, int64_t b) { return a - b; });
    else if (n == "mul" || n == "mul_plain" || n == "mul_no_relin") bin([](int64_t a, int64_t b) { return a * b; });
    else if (n == "negate") un([](int64_t a) { return -a; });
    else if (n == "square") un([](int64_t a) { return a * a; });
    else if (n == "mul_const") { int64_t c = in[2].ix(); un([&](int64_t a) { return a * c; }); }
    else if (n == "relin" || n == "relinearize" || n == "key_switch" || n == "key_switch_down") un([](int64_t a) { return a; });
    else if (n == "mod_reduce" || n == "rescale") { r = x(0); r.depth++; }
    else if (n == "level_reduce" || n == "drop_level") { r = x(0); r.depth += attr("levelToDrop"); }
    else if (n == "bootstrap") { r = x(0); r.depth = 0; }
    else if (n == "rot" || n == "rotate_columns" || n == "rotate") {
      if (auto s = op->getAttrOfType<IntegerAttr>("static_shift")) rot(s.getValue().getSExtValue());
      else rot(in.back().ix());
    }
    else if (n == "fast_rotation_precompute") r = x(0);
    else if (n == "fast_rotation" || n == "fast_rotation_ext") {
      Obj digits = at(in[3]);
      if (digits.v != x(0).v || digits.depth != x(0).depth) throw interp::UB("fast rotation with the digits of another ciphertext");
      rot(in[2].ix());
    }
    else throw interp::Unsupported(full.str());
    r.pt = false;
    if (dst >= 0) {
      // Lattigo never raises the level of the ciphertext it writes to.
      if (lat) r.depth = std::max(r.depth, at(in[dst]).depth);
      at(in[dst]) = r;
      out = {in[dst]};
    } else out = {V::scalar(Sc::in(make(r)))};
    return true;
  }
};


inline std::string show(const Heap& h, const V& v) {
  std::string s;
  for (auto& e : v.flat()) {
    if (e.k != Sc::I || e.i < 0 || e.i >= (interp::I128)h.size()) { s += "? "; continue; }
    auto& o = h[(int)e.i];
    s += "(";
    for (auto x : o.v) s += cat(x, " ");
    s += cat("depth ", o.depth, ") ");
  }
  return s;
}

// The OpenFHE emitter copies a ciphertext that starts a loop: spelled out here, as a copying operation before the loop.
inline OwningOpRef<ModuleOp> copyInits(ModuleOp m) {
  OwningOpRef<ModuleOp> c(m.clone());
  c->walk([&](LoopLikeOpInterface loop) {
    auto f = loop->getParentOfType<func::FuncOp>();
    OpBuilder b(loop);
    for (OpOperand& o : loop.getInitsMutable())
      if (isa<openfhe::CiphertextType>(o.get().getType())) o.set(b.create<openfhe::RelinOp>(loop.getLoc(), o.get().getType(), f.getArgument(0), o.get()));
  });
  return c;
}

}  // namespace be
#endif
