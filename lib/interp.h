// Reference interpreter for the MLIR programs the checks enumerate.  It is written from the operations' documented
// meanings, reads programs generically (operation names, attributes, regions), and shares no code with the passes.
//
// Scalars are integers of the type's width, doubles, polynomials over free input variables (so that one run covers
// every input of a program built from ring operations), or poison (uninitialised memory).
#ifndef VERIF_LIB_INTERP_H_
#define VERIF_LIB_INTERP_H_

#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "mlir/Dialect/Affine/IR/AffineOps.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Linalg/IR/Linalg.h"
#include "mlir/Dialect/MemRef/IR/MemRef.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/IntegerSet.h"
#include "mlir/Interfaces/CallInterfaces.h"
#include "llvm/ADT/StringRef.h"

namespace interp {
using namespace mlir;
using I128 = __int128;

struct UB : std::runtime_error { using std::runtime_error::runtime_error; };           // undefined behaviour
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };  // not modelled

// Polynomials over Z (coefficients wrap modulo 2^64) in numbered variables.
struct Poly {
  using Mono = std::u16string;
  std::map<Mono, uint64_t> t;
  static Poly constant(int64_t c) { Poly p; if (c) p.t[Mono()] = (uint64_t)c; return p; }
  static Poly var(int i) { Poly p; p.t[Mono(1, (char16_t)(i + 1))] = 1; return p; }
  void add(const Mono& m, uint64_t c) {
    auto it = t.emplace(m, 0).first;
    if (!(it->second += c)) t.erase(it);
  }
  friend Poly operator+(Poly a, const Poly& b) { for (auto& [m, c] : b.t) a.add(m, c); return a; }
  friend Poly operator-(Poly a, const Poly& b) { for (auto& [m, c] : b.t) a.add(m, -c); return a; }
  friend Poly operator*(const Poly& a, const Poly& b) {
    Poly r;
    for (auto& [m, c] : a.t)
      for (auto& [n, d] : b.t) {
        Mono k(m.size() + n.size(), 0);
        std::merge(m.begin(), m.end(), n.begin(), n.end(), k.begin());
        r.add(k, c * d);
      }
    return r;
  }
  Poly mod(unsigned w) const {
    if (w >= 64) return *this;
    Poly r;
    for (auto& [m, c] : t) r.add(m, (uint64_t)((int64_t)(c << (64 - w)) >> (64 - w)));
    return r;
  }
  bool operator==(const Poly& o) const { return t == o.t; }
  std::string str() const {
    std::string s;
    for (auto& [m, c] : t) {
      s += (s.empty() ? "" : "+") + std::to_string((int64_t)c);
      for (auto v : m) s += "*x" + std::to_string((int)v - 1);
    }
    return s.empty() ? "0" : s;
  }
};

struct Sc {
  enum K : uint8_t { I, F, P, POISON } k = POISON;
  I128 i = 0;
  double f = 0;
  std::shared_ptr<const Poly> p;
  static Sc in(I128 v) { Sc s; s.k = I; s.i = v; return s; }
  static Sc fl(double v) { Sc s; s.k = F; s.f = v; return s; }
  static Sc sym(Poly q) {
    Sc s; s.k = P; s.p = std::make_shared<Poly>(std::move(q)); return s;
  }
  static Sc var(int n) { return sym(Poly::var(n)); }
  Poly poly() const {
    if (k == P) return *p;
    if (k == I) return Poly::constant((int64_t)i);
    if (k == F && f == (double)(int64_t)f) return Poly::constant((int64_t)f);
    throw Unsupported("non-integer constant in a symbolic run");
  }
  std::string str() const {
    if (k == POISON) return "poison";
    if (k == F) { char b[40]; snprintf(b, sizeof b, "%.17g", f); return b; }
    if (k == P) return p->str();
    I128 v = i;
    if (v < 0 && v > -((I128)1 << 62)) return "-" + std::to_string((uint64_t)-v);
    std::string s;
    unsigned __int128 u = v;
    do { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; } while (u);
    return s;
  }
  // equal, where a poison original allows anything
  bool refines(const Sc& want) const {
    if (want.k == POISON) return true;
    if (k == P || want.k == P) {
      if (k == POISON) return false;
      return poly() == want.poly();
    }
    if (k != want.k) return false;
    if (k == F) return f == want.f || (std::isnan(f) && std::isnan(want.f));
    return i == want.i;
  }
};

inline unsigned width(Type t) {
  if (auto i = dyn_cast<IntegerType>(t)) return i.getWidth();
  if (t.isIndex()) return 64;
  return 0;
}
inline I128 wrap(I128 v, unsigned w) {
  if (w == 0 || w >= 128) return v;
  unsigned s = 128 - w;
  return (I128)((unsigned __int128)v << s) >> s;
}
inline unsigned __int128 zext(I128 v, unsigned w) {
  return w >= 128 ? (unsigned __int128)v : (unsigned __int128)v & (((unsigned __int128)1 << w) - 1);
}
inline std::string tstr(Type t) { std::string s; llvm::raw_string_ostream o(s); t.print(o); return s; }

struct V {
  std::vector<int64_t> shape;
  std::shared_ptr<std::vector<Sc>> d;   // tensors: value semantics, copy on write; memrefs: shared
  bool mem = false;
  std::vector<int64_t> strides;  // memrefs only
  int64_t offset = 0;
  std::shared_ptr<bool> live;    // memrefs: not deallocated
  // What a harness tracks along an execution (for P23: kind, level, dimension, scale); the interpreter only carries it.
  struct Ghost { int kind = 0; int64_t level = 0, dim = 0, scale = -1; } g;
  static V scalar(Sc s) { V v; v.d = std::make_shared<std::vector<Sc>>(1, s); return v; }
  static V tensor(std::vector<int64_t> sh, std::vector<Sc> d) { V v; v.shape = std::move(sh); v.d = std::make_shared<std::vector<Sc>>(std::move(d)); return v; }
  static V buffer(std::vector<int64_t> sh, std::vector<Sc> d) {
    V v = tensor(std::move(sh), std::move(d));
    v.mem = true; v.strides.resize(v.shape.size());
    int64_t s = 1;
    for (size_t k = v.shape.size(); k--;) v.strides[k] = s, s *= v.shape[k];
    v.live = std::make_shared<bool>(true);
    return v;
  }
  int64_t size() const { int64_t n = 1; for (auto s : shape) n *= s; return n; }
  int64_t lin(llvm::ArrayRef<int64_t> ix) const {
    if (ix.size() != shape.size()) throw UB("rank");
    int64_t r = mem ? offset : 0;
    for (size_t k = 0; k < ix.size(); k++) {
      if (ix[k] < 0 || ix[k] >= shape[k]) throw UB("index out of bounds");
      r = mem ? r + ix[k] * strides[k] : r * shape[k] + ix[k];
    }
    if (mem && !*live) throw UB("use after dealloc");
    return r;
  }
  const Sc& at(llvm::ArrayRef<int64_t> ix) const { return (*d)[lin(ix)]; }
  void set(llvm::ArrayRef<int64_t> ix, Sc s) {
    int64_t l = lin(ix);
    if (!mem && d.use_count() > 1) d = std::make_shared<std::vector<Sc>>(*d);
    (*d)[l] = std::move(s);
  }
  const Sc& sc() const { if (!shape.empty()) throw UB("scalar expected"); return (*d)[0]; }
  int64_t ix() const {
    const Sc& s = sc();
    if (s.k == Sc::POISON) throw UB("poison used as an index or condition");
    if (s.k == Sc::P) { if (s.p->t.empty()) return 0; if (s.p->t.size() == 1 && s.p->t.begin()->first.empty()) return s.p->t.begin()->second; throw Unsupported("index depends on a symbol"); }
    if (s.k != Sc::I) throw UB("integer expected");
    return (int64_t)s.i;
  }
  std::vector<Sc> flat() const {
    if (!mem) return *d;
    std::vector<Sc> r;
    each([&](llvm::ArrayRef<int64_t> ix) { r.push_back(at(ix)); });
    return r;
  }
  template <class F> void each(F f) const { eachIndex(shape, f); }
  template <class F> static void eachIndex(const std::vector<int64_t>& shape, F f) {
    for (auto s : shape) if (s <= 0) return;
    std::vector<int64_t> ix(shape.size(), 0);
    while (true) {
      f(llvm::ArrayRef<int64_t>(ix));
      size_t k = ix.size();
      while (k > 0) { if (++ix[k - 1] < shape[k - 1]) break; ix[--k] = 0; }
      if (!k) return;
    }
  }
  std::string str() const {
    std::string s = "[";
    auto f = flat();
    for (size_t k = 0; k < f.size() && k < 40; k++) s += (k ? "," : "") + f[k].str();
    return s + "]";
  }
};
using Vs = std::vector<V>;

class Machine {
 public:
  ModuleOp mod;
  uint64_t steps = 0, maxSteps = 2000000;
  std::map<std::string, V> globals;
  // Extra operations; return false when not handled.
  std::function<bool(Machine&, Operation*, const Vs&, Vs&)> ext;
  // Observes every executed operation with its operands.
  std::function<void(Operation*, const Vs&, const Vs&)> watch;
  bool exactFloats = false;  // floats stand for exact reals given by integers: keep ring operations exact
  std::vector<std::pair<std::string, Vs>> effects;  // calls of declared functions

  explicit Machine(ModuleOp m) : mod(m) {}

  Vs call(StringRef name, Vs args) {
    auto f = mod.lookupSymbol<func::FuncOp>(name);
    if (!f) throw Unsupported("no function " + name.str());
    if (f.isExternal()) {
      effects.push_back({name.str(), args});
      Vs r;
      if (ext && ext(*this, f, args, r)) return r;
      throw Unsupported("call of declared function " + name.str());
    }
    return callFunction(f.getBody(), std::move(args));
  }

  Vs runRegion(Region& r, Vs args) {  // single-block regions; returns the terminator's operands
    return runBlock(r.front(), std::move(args));
  }

  V get(Value v) {
    auto it = env.find(v);
    if (it == env.end()) throw Unsupported("value not bound: " + opName(v.getDefiningOp()));
    return it->second;
  }
  void bind(Value v, V x) { env[v] = std::move(x); }

 private:
  llvm::DenseMap<Value, V> env;
  Operation* lastTerm = nullptr;

  static std::string opName(Operation* o) { return o ? o->getName().getStringRef().str() : "block argument"; }

 public:
  Operation* terminator() const { return lastTerm; }

  Vs callFunction(Region& body, Vs args) {
    llvm::DenseMap<Value, V> saved;
    std::swap(saved, env);
    Block* b = &body.front();
    while (true) {
      Vs r = runBlock(*b, std::move(args));
      Operation* t = lastTerm;
      auto n = t->getName().getStringRef();
      if (n == "func.return") { std::swap(saved, env); return r; }
      if (n == "cf.br") { b = t->getSuccessor(0); args = r; continue; }
      if (n == "cf.cond_br") {
        auto seg = t->getAttrOfType<DenseI32ArrayAttr>("operandSegmentSizes");
        bool c = r[0].ix() & 1;
        size_t nt = seg ? seg[1] : t->getSuccessor(0)->getNumArguments();
        args = c ? Vs(r.begin() + 1, r.begin() + 1 + nt) : Vs(r.begin() + 1 + nt, r.end());
        b = t->getSuccessor(c ? 0 : 1);
        continue;
      }
      throw Unsupported("terminator " + n.str());
    }
  }

  Vs runBlock(Block& b, Vs args) {
    if (b.getNumArguments() != args.size()) throw UB("block argument count");
    for (size_t k = 0; k < args.size(); k++) env[b.getArgument(k)] = args[k];
    for (Operation& op : b) {
      if (++steps > maxSteps) throw UB("step limit");
      Vs in;
      for (Value v : op.getOperands()) in.push_back(get(v));
      if (op.hasTrait<OpTrait::IsTerminator>()) { lastTerm = &op; return in; }
      Vs out;
      exec(&op, in, out);
      if (out.size() != op.getNumResults()) throw Unsupported("result count of " + opName(&op));
      if (watch) watch(&op, in, out);
      for (size_t k = 0; k < out.size(); k++) env[op.getResult(k)] = std::move(out[k]);
    }
    lastTerm = nullptr;
    return {};
  }

  static Type elem(Type t) {
    while (true) {
      if (auto s = dyn_cast<ShapedType>(t)) { t = s.getElementType(); continue; }
      return t;
    }
  }
  static Sc constSc(Attribute a) {
    if (auto i = dyn_cast<IntegerAttr>(a)) {
      unsigned w = width(i.getType());
      const APInt& v = i.getValue();
      if (v.getBitWidth() <= 64) return Sc::in(wrap(v.getSExtValue(), w));
      if (v.getBitWidth() > 128) throw Unsupported("wide constant");
      return Sc::in((I128)(((unsigned __int128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0)));
    }
    if (auto f = dyn_cast<FloatAttr>(a)) return Sc::fl(toDouble(f.getValue()));
    throw Unsupported("constant attribute");
  }
  static double toDouble(APFloat f) {
    bool lost;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
    return f.convertToDouble();
  }
  static V constant(Attribute a, Type t) {
    if (auto d = dyn_cast<DenseElementsAttr>(a)) {
      std::vector<Sc> v;
      for (Attribute x : d.getValues<Attribute>()) v.push_back(constSc(x));
      return V::tensor(d.getType().getShape().vec(), std::move(v));
    }
    return V::scalar(constSc(a));
  }
  double rnd(double x, Type t) const {
    if (exactFloats) return x;
    if (t.isF32()) return (float)x;
    return x;
  }
  static Sc ring(const Sc& a, const Sc& b, char op) {
    Poly x = a.poly(), y = b.poly();
    return Sc::sym(op == '+' ? x + y : op == '-' ? x - y : x * y);
  }

  Sc binary(StringRef n, const Sc& a, const Sc& b, Type t, Operation* op) {
    if (a.k == Sc::POISON || b.k == Sc::POISON) return Sc();
    if (a.k == Sc::P || b.k == Sc::P) {
      unsigned w = width(t);
      auto red = [&](Sc s) { return w ? Sc::sym(s.p->mod(w)) : s; };
      if (n == "addi" || n == "addf") return red(ring(a, b, '+'));
      if (n == "subi" || n == "subf") return red(ring(a, b, '-'));
      if (n == "muli" || n == "mulf") return red(ring(a, b, '*'));
      if (n == "shli" && b.k == Sc::I) return red(ring(a, Sc::in((I128)1 << (int)b.i), '*'));
      throw Unsupported("symbolic " + n.str());
    }
    if (isa<FloatType>(t)) {
      double x = a.f, y = b.f;
      if (n == "addf") return Sc::fl(rnd(x + y, t));
      if (n == "subf") return Sc::fl(rnd(x - y, t));
      if (n == "mulf") return Sc::fl(rnd(x * y, t));
      if (n == "divf") return Sc::fl(rnd(x / y, t));
      if (n == "remf") return Sc::fl(rnd(std::fmod(x, y), t));
      if (n == "maximumf") return Sc::fl(std::isnan(x) || std::isnan(y) ? NAN : (x == y ? (std::signbit(x) ? y : x) : std::max(x, y)));
      if (n == "minimumf") return Sc::fl(std::isnan(x) || std::isnan(y) ? NAN : (x == y ? (std::signbit(x) ? x : y) : std::min(x, y)));
      if (n == "maxnumf") return Sc::fl(std::fmax(x, y));
      if (n == "minnumf") return Sc::fl(std::fmin(x, y));
      throw Unsupported("arith." + n.str());
    }
    unsigned w = width(t);
    I128 x = a.i, y = b.i;
    unsigned __int128 ux = zext(x, w), uy = zext(y, w);
    auto r = [&](I128 v) { return Sc::in(wrap(v, w)); };
    if (n == "addi") return r((unsigned __int128)x + (unsigned __int128)y);
    if (n == "subi") return r((unsigned __int128)x - (unsigned __int128)y);
    if (n == "muli") return r((unsigned __int128)x * (unsigned __int128)y);
    if (n == "andi") return r(x & y);
    if (n == "ori") return r(x | y);
    if (n == "xori") return r(x ^ y);
    if (n == "shli") return uy >= w ? Sc() : r((unsigned __int128)x << (unsigned)uy);
    if (n == "shrsi") return uy >= w ? Sc() : r(x >> (unsigned)uy);
    if (n == "shrui") return uy >= w ? Sc() : r(ux >> (unsigned)uy);
    if (n == "maxsi") return r(std::max(x, y));
    if (n == "minsi") return r(std::min(x, y));
    if (n == "maxui") return r(std::max(ux, uy));
    if (n == "minui") return r(std::min(ux, uy));
    bool div = n.contains("div") || n.contains("rem");
    if (div) {
      if (y == 0) throw UB("division by zero");
      bool u = n.ends_with("ui");
      if (!u && y == -1 && x == -((I128)1 << (w - 1))) throw UB("signed division overflow");
      if (n == "divsi") return r(x / y);
      if (n == "remsi") return r(x % y);
      if (n == "divui") return r(ux / uy);
      if (n == "remui") return r(ux % uy);
      if (n == "floordivsi") return r(x / y - ((x % y != 0) && ((x < 0) != (y < 0))));
      if (n == "ceildivsi") return r(x / y + ((x % y != 0) && ((x < 0) == (y < 0))));
      if (n == "ceildivui") return r((ux + uy - 1) / uy);
    }
    throw Unsupported("arith." + n.str());
  }

  static bool cmpi(int64_t pred, I128 x, I128 y, unsigned w) {
    unsigned __int128 ux = zext(x, w), uy = zext(y, w);
    switch (pred) {
      case 0: return x == y;
      case 1: return x != y;
      case 2: return x < y;
      case 3: return x <= y;
      case 4: return x > y;
      case 5: return x >= y;
      case 6: return ux < uy;
      case 7: return ux <= uy;
      case 8: return ux > uy;
      default: return ux >= uy;
    }
  }
  static bool cmpf(int64_t p, double x, double y) {
    bool un = std::isnan(x) || std::isnan(y);
    switch (p) {
      case 0: return false;
      case 1: return !un && x == y;
      case 2: return !un && x > y;
      case 3: return !un && x >= y;
      case 4: return !un && x < y;
      case 5: return !un && x <= y;
      case 6: return !un && x != y;
      case 7: return !un;
      case 8: return un || x == y;
      case 9: return un || x > y;
      case 10: return un || x >= y;
      case 11: return un || x < y;
      case 12: return un || x <= y;
      case 13: return un || x != y;
      case 14: return un;
      default: return true;
    }
  }

  template <class F>
  V zip(const Vs& in, F f) {
    const V* big = &in[0];
    for (auto& v : in) if (v.shape.size() > big->shape.size()) big = &v;
    std::vector<Sc> out(big->size());
    for (size_t k = 0; k < out.size(); k++) {
      std::vector<Sc> a;
      for (auto& v : in) a.push_back(v.shape.empty() ? (*v.d)[0] : (*v.d)[k]);
      out[k] = f(a);
    }
    return V::tensor(big->shape, std::move(out));
  }

  static std::vector<int64_t> evalMap(AffineMap m, llvm::ArrayRef<int64_t> args) {
    std::vector<int64_t> r;
    for (AffineExpr e : m.getResults()) r.push_back(evalExpr(e, args, m.getNumDims()));
    return r;
  }
  static int64_t evalExpr(AffineExpr e, llvm::ArrayRef<int64_t> a, unsigned nd) {
    auto fd = [](int64_t x, int64_t y) { int64_t q = x / y; return q - ((x % y != 0) && ((x < 0) != (y < 0))); };
    if (auto c = llvm::dyn_cast<AffineConstantExpr>(e)) return c.getValue();
    if (auto d = llvm::dyn_cast<AffineDimExpr>(e)) return a[d.getPosition()];
    if (auto d = llvm::dyn_cast<AffineSymbolExpr>(e)) return a[nd + d.getPosition()];
    auto b = llvm::cast<AffineBinaryOpExpr>(e);
    int64_t x = evalExpr(b.getLHS(), a, nd), y = evalExpr(b.getRHS(), a, nd);
    switch (e.getKind()) {
      case AffineExprKind::Add: return x + y;
      case AffineExprKind::Mul: return x * y;
      case AffineExprKind::Mod: if (y <= 0) throw UB("affine mod"); return x - y * fd(x, y);
      case AffineExprKind::FloorDiv: if (y == 0) throw UB("affine div"); return fd(x, y);
      default: if (y == 0) throw UB("affine div"); return -fd(-x, y);
    }
  }
  static std::vector<int64_t> ints(const Vs& in, size_t b, size_t e) {
    std::vector<int64_t> r;
    for (size_t k = b; k < e; k++) r.push_back(in[k].ix());
    return r;
  }
  // static entries, with kDynamic replaced by the operands from position p
  static std::vector<int64_t> mixed(llvm::ArrayRef<int64_t> st, const Vs& in, size_t& p) {
    std::vector<int64_t> r;
    for (int64_t s : st) r.push_back(ShapedType::isDynamic(s) ? in[p++].ix() : s);
    return r;
  }
  static std::vector<int64_t> vec(ArrayRef<int64_t> a) { return {a.begin(), a.end()}; }
  V alloc(std::vector<int64_t> sh) { int64_t n = 1; for (auto s : sh) n *= s; return V::buffer(sh, std::vector<Sc>(n)); }

  void exec(Operation* op, const Vs& in, Vs& out) {
    StringRef full = op->getName().getStringRef();
    auto [dialect, name] = full.split('.');
    if (ext && ext(*this, op, in, out)) return;
    if (dialect == "arith") return arith(op, name, in, out);
    if (dialect == "math") return math(op, name, in, out);
    if (dialect == "scf") return scf(op, name, in, out);
    if (dialect == "affine") return affine(op, name, in, out);
    if (dialect == "tensor") return tensor(op, name, in, out);
    if (dialect == "memref") return memref(op, name, in, out);
    if (dialect == "secret") return secret(op, name, in, out);
    if (dialect == "mgmt") {
      if (op->getNumResults() == 1 && op->getNumOperands() == 1) { out.push_back(in[0]); return; }
    }
    if (dialect == "tensor_ext") return tensorExt(op, name, in, out);
    if (full == "func.call") {
      out = call(op->getAttrOfType<FlatSymbolRefAttr>("callee").getValue(), in);
      return;
    }
    if (full == "builtin.unrealized_conversion_cast" && in.size() == 1 && op->getNumResults() == 1) { out.push_back(in[0]); return; }
    if (auto l = dyn_cast<linalg::LinalgOp>(op)) return linalgOp(l, in, out);
    if (full == "linalg.map" || full == "linalg.reduce") throw Unsupported(full.str());
    throw Unsupported(full.str());
  }

  void arith(Operation* op, StringRef n, const Vs& in, Vs& out) {
    if (n == "constant") { out.push_back(constant(op->getAttr("value"), op->getResult(0).getType())); return; }
    Type t = elem(op->getResult(0).getType());
    if (n == "select") {
      if (in[0].shape.empty() && !in[1].shape.empty()) { out.push_back(in[in[0].ix() ? 1 : 2]); return; }
      out.push_back(zip(in, [&](std::vector<Sc>& a) { return a[0].k == Sc::POISON ? Sc() : V::scalar(a[0]).ix() ? a[1] : a[2]; }));
      return;
    }
    if (n == "cmpi" || n == "cmpf") {
      int64_t pred = cast<IntegerAttr>(op->getAttr("predicate")).getInt();
      Type ot = elem(op->getOperand(0).getType());
      out.push_back(zip(in, [&](std::vector<Sc>& a) {
        if (a[0].k == Sc::POISON || a[1].k == Sc::POISON) return Sc();
        if (n == "cmpf") {
          if (a[0].k != Sc::F || a[1].k != Sc::F) throw Unsupported("symbolic compare");
          return Sc::in(cmpf(pred, a[0].f, a[1].f) ? -1 : 0);
        }
        return Sc::in(cmpi(pred, V::scalar(a[0]).ix(), V::scalar(a[1]).ix(), width(ot)) ? -1 : 0);
      }));
      return;
    }
    if (op->getNumOperands() == 2) {
      out.push_back(zip(in, [&](std::vector<Sc>& a) { return binary(n, a[0], a[1], t, op); }));
      return;
    }
    Type from = elem(op->getOperand(0).getType());
    unsigned wf = width(from), wt = width(t);
    out.push_back(zip(in, [&](std::vector<Sc>& v) -> Sc {
      Sc& a = v[0];
      if (a.k == Sc::POISON) return a;
      if (a.k == Sc::P) {
        if (n == "extf" || n == "truncf") return a;
        if (n == "trunci" || n == "index_cast") { if (wt <= wf) return Sc::sym(a.p->mod(wt)); }
        if (n == "negf") return Sc::sym(Poly() - *a.p);
        if (a.p->t.empty() || (a.p->t.size() == 1 && a.p->t.begin()->first.empty())) a = Sc::in(wrap(V::scalar(a).ix(), wf));
        else throw Unsupported("symbolic " + n.str());
      }
      if (n == "extsi" || n == "trunci" || n == "index_cast") return Sc::in(wrap(a.i, wt));
      if (n == "extui" || n == "index_castui") return Sc::in(wrap((I128)zext(a.i, wf), wt));
      if (n == "extf" || n == "truncf") return Sc::fl(rnd(a.f, t));
      if (n == "negf") return Sc::fl(-a.f);
      if (n == "sitofp") return Sc::fl(rnd((double)a.i, t));
      if (n == "uitofp") return Sc::fl(rnd((double)zext(a.i, wf), t));
      if (n == "fptosi" || n == "fptoui") {
        double tr = std::trunc(a.f), lim = std::ldexp(1.0, n == "fptosi" ? wt - 1 : wt);
        if (!(tr < lim && tr >= (n == "fptosi" ? -lim : 0.0))) return Sc();
        return Sc::in(wrap((I128)tr, wt));
      }
      if (n == "bitcast" && wf && wt) return a;
      throw Unsupported("arith." + n.str());
    }));
  }

  void math(Operation* op, StringRef n, const Vs& in, Vs& out) {
    Type t = elem(op->getResult(0).getType());
    out.push_back(zip(in, [&](std::vector<Sc>& v) -> Sc {
      Sc& a = v[0];
      if (a.k == Sc::POISON) return a;
      if (n == "fpowi" || n == "ipowi") {
        int64_t e = V::scalar(v[1]).ix();
        if (a.k == Sc::P) { if (e < 0) throw Unsupported("negative power"); Poly r = Poly::constant(1); while (e--) r = r * *a.p; return Sc::sym(r); }
        if (n == "fpowi") return Sc::fl(rnd(std::pow(a.f, (double)e), t));
        if (e < 0) { if (a.i == 0) throw UB("pow"); return Sc::in(a.i == 1 ? 1 : a.i == -1 ? (e % 2 ? -1 : 1) : 0); }
        I128 r = 1;
        while (e--) r = wrap((unsigned __int128)r * (unsigned __int128)a.i, width(t));
        return Sc::in(r);
      }
      if (a.k == Sc::P) throw Unsupported("symbolic math");
      if (n == "absi") return Sc::in(wrap(a.i < 0 ? -a.i : a.i, width(t)));
      double x = a.f;
      if (n == "powf") return Sc::fl(rnd(std::pow(x, v[1].f), t));
      if (n == "absf") return Sc::fl(std::fabs(x));
      if (n == "exp") return Sc::fl(rnd(std::exp(x), t));
      if (n == "log") return Sc::fl(rnd(std::log(x), t));
      if (n == "tanh") return Sc::fl(rnd(std::tanh(x), t));
      if (n == "sqrt") return Sc::fl(rnd(std::sqrt(x), t));
      if (n == "rsqrt") return Sc::fl(rnd(1 / std::sqrt(x), t));
      if (n == "erf") return Sc::fl(rnd(std::erf(x), t));
      if (n == "sin") return Sc::fl(rnd(std::sin(x), t));
      if (n == "cos") return Sc::fl(rnd(std::cos(x), t));
      if (n == "floor") return Sc::fl(std::floor(x));
      if (n == "ceil") return Sc::fl(std::ceil(x));
      throw Unsupported("math." + n.str());
    }));
  }

  void scf(Operation* op, StringRef n, const Vs& in, Vs& out) {
    if (n == "if") {
      bool c = in[0].ix() & 1;
      Region& r = op->getRegion(c ? 0 : 1);
      if (r.empty()) return;
      out = runRegion(r, {});
      return;
    }
    if (n == "for") {
      int64_t lb = in[0].ix(), ub = in[1].ix(), st = in[2].ix();
      if (st <= 0) throw UB("loop step");
      Vs it(in.begin() + 3, in.end());
      for (int64_t i = lb; i < ub; i += st) {
        Vs args{V::scalar(Sc::in(i))};
        args.insert(args.end(), it.begin(), it.end());
        it = runRegion(op->getRegion(0), args);
      }
      out = it;
      return;
    }
    if (n == "while") {
      Vs it = in;
      while (true) {
        Vs c = runRegion(op->getRegion(0), it);
        bool go = c[0].ix() & 1;
        c.erase(c.begin());
        if (!go) { out = c; return; }
        if (++steps > maxSteps) throw UB("step limit");
        it = runRegion(op->getRegion(1), c);
      }
    }
    throw Unsupported("scf." + n.str());
  }

  void affine(Operation* op, StringRef n, const Vs& in, Vs& out) {
    auto args = [&](size_t b, size_t e) { return ints(in, b, e); };
    if (auto f = dyn_cast<affine::AffineForOp>(op)) {
      size_t nl = f.getLowerBoundOperands().size(), nu = f.getUpperBoundOperands().size();
      auto l = evalMap(f.getLowerBoundMap(), args(0, nl)), u = evalMap(f.getUpperBoundMap(), args(nl, nl + nu));
      int64_t lb = *std::max_element(l.begin(), l.end()), ub = *std::min_element(u.begin(), u.end()), st = f.getStepAsInt();
      Vs it(in.begin() + nl + nu, in.end());
      for (int64_t i = lb; i < ub; i += st) {
        Vs a{V::scalar(Sc::in(i))};
        a.insert(a.end(), it.begin(), it.end());
        it = runRegion(f.getRegion(), a);
      }
      out = it;
      return;
    }
    if (auto l = dyn_cast<affine::AffineLoadOp>(op)) {
      out.push_back(V::scalar(in[0].at(evalMap(l.getAffineMap(), args(1, in.size())))));
      return;
    }
    if (auto s = dyn_cast<affine::AffineStoreOp>(op)) {
      V m = in[1];
      m.set(evalMap(s.getAffineMap(), args(2, in.size())), in[0].sc());
      return;
    }
    if (auto a = dyn_cast<affine::AffineApplyOp>(op)) { out.push_back(V::scalar(Sc::in(evalMap(a.getAffineMap(), args(0, in.size()))[0]))); return; }
    if (n == "min" || n == "max") {
      auto r = evalMap(cast<AffineMapAttr>(op->getAttr("map")).getValue(), args(0, in.size()));
      out.push_back(V::scalar(Sc::in(n == "min" ? *std::min_element(r.begin(), r.end()) : *std::max_element(r.begin(), r.end()))));
      return;
    }
    if (auto f = dyn_cast<affine::AffineIfOp>(op)) {
      auto s = f.getIntegerSet();
      auto a = args(0, in.size());
      bool ok = true;
      for (unsigned k = 0; k < s.getNumConstraints(); k++) {
        int64_t v = evalExpr(s.getConstraint(k), a, s.getNumDims());
        ok = ok && (s.isEq(k) ? v == 0 : v >= 0);
      }
      Region& r = op->getRegion(ok ? 0 : 1);
      if (!r.empty()) out = runRegion(r, {});
      return;
    }
    throw Unsupported("affine." + n.str());
  }

  V reshape(const V& v, std::vector<int64_t> sh) { V r = V::tensor(std::move(sh), v.flat()); if ((int64_t)r.d->size() != r.size()) throw UB("reshape"); return r; }

  void tensor(Operation* op, StringRef n, const Vs& in, Vs& out) {
    auto rshape = [&](unsigned k = 0) { return vec(cast<ShapedType>(op->getResult(k).getType()).getShape()); };
    if (n == "extract") { out.push_back(V::scalar(in[0].at(ints(in, 1, in.size())))); return; }
    if (n == "insert") { V t = in[1]; t.set(ints(in, 2, in.size()), in[0].sc()); out.push_back(t); return; }
    if (n == "empty") { size_t p = 0; auto s = mixed(rshape(), in, p); int64_t c = 1; for (auto x : s) c *= x; out.push_back(V::tensor(s, std::vector<Sc>(c))); return; }
    if (n == "from_elements") { std::vector<Sc> d; for (auto& v : in) d.push_back(v.sc()); out.push_back(V::tensor(rshape(), d)); return; }
    if (n == "splat") { size_t p = 1; auto s = mixed(rshape(), in, p); int64_t c = 1; for (auto x : s) c *= x; out.push_back(V::tensor(s, std::vector<Sc>(c, in[0].sc()))); return; }
    if (n == "cast") { out.push_back(in[0]); return; }
    if (n == "dim") { int64_t k = in[1].ix(); if (k < 0 || k >= (int64_t)in[0].shape.size()) throw UB("dim"); out.push_back(V::scalar(Sc::in(in[0].shape[k]))); return; }
    if (n == "collapse_shape" || n == "expand_shape" || n == "reshape") { out.push_back(reshape(in[0], rshape())); return; }
    if (n == "generate") {
      size_t p = 0;
      V r = V::tensor(mixed(rshape(), in, p), {});
      std::vector<Sc> d;
      V::eachIndex(r.shape, [&](llvm::ArrayRef<int64_t> ix) { Vs a; for (auto i : ix) a.push_back(V::scalar(Sc::in(i))); d.push_back(runRegion(op->getRegion(0), a)[0].sc()); });
      out.push_back(V::tensor(r.shape, d));
      return;
    }
    if (auto e = dyn_cast<tensor::ExtractSliceOp>(op)) {
      size_t p = 1;
      auto o = mixed(e.getStaticOffsets(), in, p), s = mixed(e.getStaticSizes(), in, p), st = mixed(e.getStaticStrides(), in, p);
      std::vector<Sc> d;
      V::eachIndex(s, [&](llvm::ArrayRef<int64_t> ix) { std::vector<int64_t> j; for (size_t k = 0; k < ix.size(); k++) j.push_back(o[k] + ix[k] * st[k]); d.push_back(in[0].at(j)); });
      auto rs = rshape();
      int64_t c = 1;
      for (auto& x : rs) { if (ShapedType::isDynamic(x)) { rs = s; break; } c *= x; }
      out.push_back(V::tensor(rs, d));
      return;
    }
    if (auto e = dyn_cast<tensor::InsertSliceOp>(op)) {
      size_t p = 2;
      auto o = mixed(e.getStaticOffsets(), in, p), s = mixed(e.getStaticSizes(), in, p), st = mixed(e.getStaticStrides(), in, p);
      V t = in[1];
      size_t q = 0;
      V::eachIndex(s, [&](llvm::ArrayRef<int64_t> ix) { std::vector<int64_t> j; for (size_t k = 0; k < ix.size(); k++) j.push_back(o[k] + ix[k] * st[k]); t.set(j, in[0].d->at(q++)); });
      out.push_back(t);
      return;
    }
    if (n == "concat") {
      int64_t dim = cast<IntegerAttr>(op->getAttr("dim")).getInt();
      auto sh = in[0].shape;
      sh[dim] = 0;
      for (auto& v : in) sh[dim] += v.shape[dim];
      int64_t c = 1;
      for (auto x : sh) c *= x;
      V r = V::tensor(sh, std::vector<Sc>(c));
      int64_t base = 0;
      for (auto& v : in) {
        v.each([&](llvm::ArrayRef<int64_t> ix) { std::vector<int64_t> j(ix.begin(), ix.end()); j[dim] += base; r.set(j, v.at(ix)); });
        base += v.shape[dim];
      }
      out.push_back(r);
      return;
    }
    if (auto pd = dyn_cast<tensor::PadOp>(op)) {
      size_t p = 1;
      auto lo = mixed(pd.getStaticLow(), in, p), hi = mixed(pd.getStaticHigh(), in, p);
      std::vector<int64_t> sh = in[0].shape;
      for (size_t k = 0; k < sh.size(); k++) sh[k] += lo[k] + hi[k];
      std::vector<Sc> d;
      V::eachIndex(sh, [&](llvm::ArrayRef<int64_t> ix) {
        std::vector<int64_t> j;
        bool inside = true;
        for (size_t k = 0; k < ix.size(); k++) { j.push_back(ix[k] - lo[k]); inside = inside && j[k] >= 0 && j[k] < in[0].shape[k]; }
        if (inside) { d.push_back(in[0].at(j)); return; }
        Vs a;
        for (auto i : ix) a.push_back(V::scalar(Sc::in(i)));
        d.push_back(runRegion(op->getRegion(0), a)[0].sc());
      });
      out.push_back(V::tensor(sh, d));
      return;
    }
    throw Unsupported("tensor." + n.str());
  }

  void memref(Operation* op, StringRef n, const Vs& in, Vs& out) {
    auto rshape = [&](unsigned k = 0) { return vec(cast<ShapedType>(op->getResult(k).getType()).getShape()); };
    if (n == "alloc" || n == "alloca") { size_t p = 0; out.push_back(alloc(mixed(rshape(), in, p))); return; }
    if (n == "dealloc") { if (!*in[0].live) throw UB("double free"); *in[0].live = false; return; }
    if (n == "load") { out.push_back(V::scalar(in[0].at(ints(in, 1, in.size())))); return; }
    if (n == "store") { V m = in[1]; m.set(ints(in, 2, in.size()), in[0].sc()); return; }
    if (n == "copy") { V m = in[1]; auto f = in[0].flat(); size_t q = 0; m.each([&](llvm::ArrayRef<int64_t> ix) { m.set(ix, f[q++]); }); return; }
    if (n == "cast") { out.push_back(in[0]); return; }
    if (n == "dim") { out.push_back(V::scalar(Sc::in(in[0].shape.at(in[1].ix())))); return; }
    if (n == "get_global") {
      auto nm = op->getAttrOfType<FlatSymbolRefAttr>("name").getValue();
      auto it = globals.find(nm.str());
      if (it == globals.end()) {
        auto g = mod.lookupSymbol<memref::GlobalOp>(nm);
        auto iv = g ? g.getInitialValue() : std::nullopt;
        if (!iv || !isa<DenseElementsAttr>(*iv)) throw Unsupported("global without value");
        V c = constant(*iv, g.getType());
        it = globals.emplace(nm.str(), V::buffer(c.shape, c.flat())).first;
      }
      out.push_back(it->second);
      return;
    }
    if (auto sv = dyn_cast<memref::SubViewOp>(op)) {
      size_t p = 1;
      auto o = mixed(sv.getStaticOffsets(), in, p), s = mixed(sv.getStaticSizes(), in, p), st = mixed(sv.getStaticStrides(), in, p);
      V r = in[0];
      for (size_t k = 0; k < s.size(); k++) {
        if (o[k] < 0 || (s[k] > 0 && o[k] + (s[k] - 1) * st[k] >= in[0].shape[k])) throw UB("subview out of bounds");
        r.offset += o[k] * in[0].strides[k]; r.strides[k] = in[0].strides[k] * st[k]; r.shape[k] = s[k];
      }
      auto drop = sv.getDroppedDims();
      V q = r;
      q.shape.clear(); q.strides.clear();
      for (size_t k = 0; k < s.size(); k++) if (!drop[k]) q.shape.push_back(r.shape[k]), q.strides.push_back(r.strides[k]);
      out.push_back(q);
      return;
    }
    if (n == "collapse_shape" || n == "expand_shape" || n == "reinterpret_cast") {
      auto sh = rshape();
      int64_t c = 1;
      for (size_t k = in[0].shape.size(); k--;) { if (in[0].strides[k] != c && in[0].shape[k] != 1) throw Unsupported("reshape of a view"); c *= in[0].shape[k]; }
      V r = in[0];
      r.shape = sh; r.strides.assign(sh.size(), 1);
      c = 1;
      for (size_t k = sh.size(); k--;) r.strides[k] = c, c *= sh[k];
      out.push_back(r);
      return;
    }
    throw Unsupported("memref." + n.str());
  }

  void secret(Operation* op, StringRef n, const Vs& in, Vs& out) {
    if (n == "generic") { out = runRegion(op->getRegion(0), in); return; }
    if (n == "conceal" || n == "reveal") { out.push_back(in[0]); return; }
    if (n == "cast") {
      Type f = op->getOperand(0).getType(), t = op->getResult(0).getType();
      out.push_back(f == t ? in[0] : throw Unsupported("secret.cast"));
      return;
    }
    if (n == "separator") return;
    throw Unsupported("secret." + n.str());
  }

  static Sc addSc(const Sc& a, const Sc& b, Type t, Machine& m) { return m.binary(isa<FloatType>(t) ? "addf" : "addi", a, b, t, nullptr); }

  void tensorExt(Operation* op, StringRef n, const Vs& in, Vs& out) {
    if (n == "rotate") {
      // cyclic left rotation of the last dimension
      int64_t amt = in[1].ix(), L = in[0].shape.back();
      std::vector<Sc> d;
      in[0].each([&](llvm::ArrayRef<int64_t> ix) { std::vector<int64_t> j(ix.begin(), ix.end()); j.back() = (((j.back() + amt) % L) + L) % L; d.push_back(in[0].at(j)); });
      out.push_back(V::tensor(in[0].shape, d));
      return;
    }
    throw Unsupported("tensor_ext." + n.str());
  }

  void linalgOp(linalg::LinalgOp l, const Vs& in, Vs& out) {
    SmallVector<int64_t> ranges;
    auto maps = l.getIndexingMapsArray();
    // loop ranges from operand shapes
    unsigned nl = l.getNumLoops();
    std::vector<int64_t> r(nl, -1);
    for (size_t o = 0; o < maps.size(); o++)
      for (unsigned k = 0; k < maps[o].getNumResults(); k++)
        if (auto d = llvm::dyn_cast<AffineDimExpr>(maps[o].getResult(k))) { auto& x = r[d.getPosition()]; if (x >= 0 && x != in[o].shape[k]) throw UB("linalg shape mismatch"); x = in[o].shape[k]; }
    for (auto x : r) if (x < 0) throw Unsupported("linalg loop range");
    size_t ni = l.getNumDpsInputs(), no = l.getNumDpsInits();
    Vs acc(in.begin() + ni, in.begin() + ni + no);
    Block* b = l.getBlock();
    V::eachIndex(r, [&](llvm::ArrayRef<int64_t> ix) {
      Vs args;
      for (size_t o = 0; o < ni + no; o++) {
        auto j = evalMap(maps[o], ix);
        const V& src = o < ni ? in[o] : acc[o - ni];
        if (b->getNumArguments() == ni && o >= ni) continue;  // linalg.map has no output arguments
        args.push_back(src.shape.empty() && j.empty() ? V::scalar((*src.d)[src.mem ? src.offset : 0]) : V::scalar(src.at(j)));
      }
      idx.push_back(std::vector<int64_t>(ix.begin(), ix.end()));
      Vs y = runBlockIdx(*b, args);
      idx.pop_back();
      for (size_t o = 0; o < no; o++) acc[o].set(evalMap(maps[ni + o], ix), y[o].sc());
    });
    for (unsigned k = 0; k < l->getNumResults(); k++) out.push_back(acc[k]);
  }
  std::vector<std::vector<int64_t>> idx;
  Vs runBlockIdx(Block& b, Vs args) {
    for (Operation& op : b)
      if (op.getName().getStringRef() == "linalg.index") env[op.getResult(0)] = V::scalar(Sc::in(idx.back()[cast<IntegerAttr>(op.getAttr("dim")).getInt()]));
    for (size_t k = 0; k < args.size(); k++) env[b.getArgument(k)] = args[k];
    for (Operation& op : b) {
      if (op.getName().getStringRef() == "linalg.index") continue;
      Vs in, out;
      for (Value v : op.getOperands()) in.push_back(get(v));
      if (op.hasTrait<OpTrait::IsTerminator>()) return in;
      exec(&op, in, out);
      if (watch) watch(&op, in, out);
      for (size_t k = 0; k < out.size(); k++) env[op.getResult(k)] = out[k];
    }
    return {};
  }
};

}  // namespace interp
#endif
