// P28: Boolean circuits keep their truth function through the lowering to CGGI, gate vectorization, decomposition and the backend dialects.
#include "lib/Dialect/CGGI/Conversions/CGGIToJaxite/CGGIToJaxite.h"
#include "lib/Dialect/CGGI/Conversions/CGGIToTfheRust/CGGIToTfheRust.h"
#include "lib/Dialect/CGGI/Conversions/CGGIToTfheRustBool/CGGIToTfheRustBool.h"
#include "lib/Dialect/CGGI/IR/CGGIAttributes.h"
#include "lib/Dialect/CGGI/IR/CGGIDialect.h"
#include "lib/Dialect/CGGI/IR/CGGIOps.h"
#include "lib/Dialect/CGGI/Transforms/Passes.h"
#include "lib/Dialect/Comb/IR/CombDialect.h"
#include "lib/Dialect/Jaxite/IR/JaxiteDialect.h"
#include "lib/Dialect/LWE/IR/LWEDialect.h"
#include "lib/Dialect/LWE/IR/LWETypes.h"
#include "lib/Dialect/Polynomial/IR/PolynomialDialect.h"
#include "lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.h"
#include "lib/Dialect/Secret/IR/SecretDialect.h"
#include "lib/Dialect/Secret/IR/SecretTypes.h"
#include "lib/Dialect/Secret/Transforms/Passes.h"
#include "lib/Dialect/TfheRust/IR/TfheRustDialect.h"
#include "lib/Dialect/TfheRustBool/IR/TfheRustBoolAttributes.h"
#include "lib/Dialect/TfheRustBool/IR/TfheRustBoolDialect.h"
#include "lib/Dialect/TfheRustBool/IR/TfheRustBoolOps.h"
#include "lib/Transforms/BooleanVectorizer/BooleanVectorizer.h"
#include "lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.h"
#include "passmc.h"
using namespace pm;
using namespace mlir::heir;
using interp::UB;
using interp::Unsupported;

static Driver* D;
static bool T;
using Bits = std::vector<int>;  // 0, 1, or -1 when undefined

// ------------------------------------------------------------------------------------------------ meaning
static int64_t bitsOf(const Sc& s, int w) {
  if (s.k != Sc::I) throw UB("an undefined value is used");
  return (int64_t)(s.i & (((interp::I128)1 << w) - 1));
}
// Bits of the message a ciphertext holds, or of an integer.
static int widthOf(Type t) {
  t = getElementTypeOrSelf(t);
  if (auto s = dyn_cast<secret::SecretType>(t)) return widthOf(s.getValueType());
  if (auto i = dyn_cast<IntegerType>(t)) return i.getWidth();
  if (auto c = dyn_cast<lwe::LWECiphertextType>(t)) return c.getPlaintextSpace().getRing().getCoefficientType().getIntOrFloatBitWidth();
  if (auto c = dyn_cast<lwe::LWEPlaintextType>(t)) return c.getPlaintextSpace().getRing().getCoefficientType().getIntOrFloatBitWidth();
  std::string s;
  llvm::raw_string_ostream o(s);
  t.print(o);
  auto at = s.find("eui");
  if (at != std::string::npos) return std::stoi(s.substr(at + 3));
  if (s.find("tfhe_rust_bool.eb") != std::string::npos || s.find("tfhe_rust.bool") != std::string::npos) return 1;
  throw Unsupported("width of " + s);
}
static int gate(StringRef n, int a, int b) {
  if (n == "and") return a & b;
  if (n == "nand") return 1 ^ (a & b);
  if (n == "or") return a | b;
  if (n == "nor") return 1 ^ (a | b);
  if (n == "xor") return a ^ b;
  if (n == "xnor") return 1 ^ a ^ b;
  throw Unsupported("gate " + n.str());
}

static V arg(Type t, const Bits& b);
static Bits bitsOfResult(Type t, const V& v);

struct Circuit {
  std::vector<int64_t> tuples;  // jaxite.lut3_args: four entries each
  // f over the elements of the operands (scalars are repeated)
  static void map(Operation* op, const Vs& in, size_t from, Vs& out, const std::function<Sc(const std::vector<Sc>&)>& f) {
    V like = in[from];
    for (size_t k = from; k < in.size(); k++) if (!in[k].shape.empty()) like = in[k];
    std::vector<Sc> r;
    for (int64_t e = 0; e < like.size(); e++) {
      std::vector<Sc> x;
      for (size_t k = from; k < in.size(); k++) x.push_back(in[k].shape.empty() ? in[k].sc() : in[k].flat().at(e));
      r.push_back(f(x));
    }
    out.push_back(like.shape.empty() ? V::scalar(r[0]) : V::tensor(like.shape, r));
  }
  static Sc mod(int64_t v, int w) { return Sc::in(v & (((int64_t)1 << w) - 1)); }
  // table >> {in[0], in[1], ...}, the first the most significant
  static Sc look(const APInt& table, int64_t ix) { return Sc::in(ix < (int64_t)table.getBitWidth() && table[(unsigned)ix] ? 1 : 0); }
  static APInt table(Operation* op, StringRef name) { return op->getAttrOfType<IntegerAttr>(name).getValue(); }

  bool step(Operation* op, const Vs& in, Vs& out) {
    StringRef full = op->getName().getStringRef();
    auto [dia, n] = full.split('.');
    int w = 0;
    if (op->getNumResults() == 1 && (dia == "cggi" || dia == "lwe" || dia == "tfhe_rust") && n != "generate_lookup_table") w = widthOf(op->getResult(0).getType());
    auto bit = [](const Sc& s) { auto b = bitsOf(s, 62); if (b != 0 && b != 1) throw UB("a gate on a ciphertext that holds no bit"); return (int)b; };
    auto lut = [&](size_t from, StringRef name) {
      auto t = table(op, name);
      map(op, in, from, out, [&](const std::vector<Sc>& x) { int64_t ix = 0; for (auto& s : x) ix = 2 * ix + bit(s); return look(t, ix); });
      return true;
    };
    if (dia == "comb") {
      if (n == "truth_table") {
        auto t = table(op, "lookupTable");
        int64_t ix = 0;
        for (auto& v : in) ix = 2 * ix + bitsOf(v.sc(), 1);
        out.push_back(V::scalar(Sc::in(interp::wrap(look(t, ix).i, 1))));
        return true;
      }
      if (widthOf(op->getResult(0).getType()) != 1) throw Unsupported("wide " + full.str());
      int r = bitsOf(in[0].sc(), 1);
      if (n == "inv") r ^= 1;
      else for (size_t k = 1; k < in.size(); k++) r = gate(n, r, bitsOf(in[k].sc(), 1));
      out.push_back(V::scalar(Sc::in(interp::wrap(r, 1))));
      return true;
    }
    if (full == "secret.cast") {  // the same bits, in order
      Bits b = bitsOfResult(op->getOperand(0).getType(), in[0]);
      for (int x : b) if (x < 0) throw UB("an undefined value is used");
      out.push_back(arg(op->getResult(0).getType(), b));
      return true;
    }
    if (full == "lwe.encode") { out.push_back(V::scalar(mod(bitsOf(in[0].sc(), widthOf(op->getOperand(0).getType())), w))); return true; }
    if (full == "lwe.trivial_encrypt") { out.push_back(in[0]); return true; }
    if (full == "lwe.add") { map(op, in, 0, out, [&](const std::vector<Sc>& x) { return mod(bitsOf(x[0], w) + bitsOf(x[1], w), w); }); return true; }
    if (full == "lwe.mul_scalar") { map(op, in, 0, out, [&](const std::vector<Sc>& x) { return mod(bitsOf(x[0], w) * bitsOf(x[1], w), w); }); return true; }
    if (dia == "cggi") {
      if (n == "not") { map(op, in, 0, out, [&](const std::vector<Sc>& x) { return Sc::in(1 ^ bit(x[0])); }); return true; }
      if (n == "lut2" || n == "lut3" || n == "lut4") return lut(0, "lookup_table");
      if (n == "lut_lincomb") {
        auto co = op->getAttrOfType<DenseI32ArrayAttr>("coefficients").asArrayRef();
        auto t = table(op, "lookup_table");
        map(op, in, 0, out, [&](const std::vector<Sc>& x) { int64_t s = 0; for (size_t k = 0; k < x.size(); k++) s += co[k] * bitsOf(x[k], w); return look(t, mod(s, w).i); });
        return true;
      }
      if (n == "programmable_bootstrap") { auto t = table(op, "lookup_table"); map(op, in, 0, out, [&](const std::vector<Sc>& x) { return look(t, bitsOf(x[0], w)); }); return true; }
      if (n == "sshl") { auto s = table(op, "shiftAmount").getSExtValue(); map(op, in, 0, out, [&](const std::vector<Sc>& x) { return mod(bitsOf(x[0], w) << s, w); }); return true; }
      if (n == "create_trivial") {
        int64_t v = table(op, "value").getSExtValue();
        auto t = dyn_cast<RankedTensorType>(op->getResult(0).getType());
        out.push_back(t ? V::tensor(std::vector<int64_t>(t.getShape()), std::vector<Sc>(t.getNumElements(), mod(v, w))) : V::scalar(mod(v, w)));
        return true;
      }
      if (n == "packed_gates") {
        auto g = cast<cggi::PackedOp>(op).getGates().getGates();
        std::vector<Sc> r;
        if ((int64_t)g.size() != in[0].size() || in[0].size() != in[1].size()) throw UB("packed gates of different number");
        for (size_t k = 0; k < g.size(); k++) r.push_back(Sc::in(gate(StringRef(cggi::stringifyCGGIBoolGateEnum(g[k].getValue())).lower(), bit(in[0].flat()[k]), bit(in[1].flat()[k]))));
        out.push_back(V::tensor(in[0].shape, r));
        return true;
      }
      if (n == "packed_lut3") {
        auto p = cast<cggi::PackedLut3Op>(op);
        auto ts = p.getLookupTables();
        std::vector<Sc> r;
        if ((int64_t)ts.size() != in[0].size()) throw UB("packed tables of different number");
        for (size_t k = 0; k < ts.size(); k++) r.push_back(look(cast<IntegerAttr>(ts[k]).getValue(), bit(in[0].flat()[k]) + 2 * bit(in[1].flat()[k]) + 4 * bit(in[2].flat()[k])));  // a, b, c
        out.push_back(V::tensor(in[0].shape, r));
        return true;
      }
      map(op, in, 0, out, [&](const std::vector<Sc>& x) { return Sc::in(gate(n, bit(x[0]), bit(x[1]))); });
      return true;
    }
    if (dia == "tfhe_rust") {
      if (n == "generate_lookup_table") { out.push_back(V::scalar(Sc::in((int64_t)table(op, "truthTable").getZExtValue()))); return true; }
      if (n == "apply_lookup_table") { auto x = bitsOf(in[1].sc(), w); out.push_back(V::scalar(Sc::in((in[2].sc().i >> (int)x) & 1))); return true; }
      if (n == "scalar_left_shift") { out.push_back(V::scalar(mod(bitsOf(in[1].sc(), w) << table(op, "shiftAmount").getSExtValue(), w))); return true; }
      if (n == "create_trivial") {
        if (in.size() == 2) { out.push_back(V::scalar(mod(bitsOf(in[1].sc(), widthOf(op->getOperand(1).getType())), w))); return true; }
        auto v = mod(table(op, "valueAttr").getSExtValue(), w);
        auto t = dyn_cast<RankedTensorType>(op->getResult(0).getType());
        out.push_back(t ? V::tensor(std::vector<int64_t>(t.getShape()), std::vector<Sc>(t.getNumElements(), v)) : V::scalar(v));
        return true;
      }
      map(op, in, 1, out, [&](const std::vector<Sc>& x) {
        int64_t a = bitsOf(x[0], w), b = bitsOf(x[1], w);
        if (n == "add") return mod(a + b, w);
        if (n == "sub") return mod(a - b, w);
        if (n == "mul") return mod(a * b, w);
        if (n == "bitand") return mod(a & b, w);
        if (n == "bitor") return mod(a | b, w);
        if (n == "bitxor") return mod(a ^ b, w);
        throw Unsupported(full.str());
      });
      return true;
    }
    if (dia == "tfhe_rust_bool") {
      if (n == "create_trivial") { out.push_back(V::scalar(Sc::in(bitsOf(in[1].sc(), 1)))); return true; }
      if (n == "not") { map(op, in, 1, out, [&](const std::vector<Sc>& x) { return Sc::in(1 ^ bit(x[0])); }); return true; }
      if (n == "gates_packed") {
        auto g = cast<tfhe_rust_bool::PackedOp>(op).getGates().getGates();
        std::vector<Sc> r;
        for (size_t k = 0; k < g.size(); k++) r.push_back(Sc::in(gate(StringRef(tfhe_rust_bool::stringifyTfheRustBoolGateEnum(g[k].getValue())).lower(), bit(in[1].flat().at(k)), bit(in[2].flat().at(k)))));
        out.push_back(V::tensor(in[1].shape, r));
        return true;
      }
      map(op, in, 1, out, [&](const std::vector<Sc>& x) { return Sc::in(gate(n, bit(x[0]), bit(x[1]))); });
      return true;
    }
    if (dia == "jaxite") {
      auto at = [&](int64_t a, int64_t b, int64_t c, int64_t tt) { return Sc::in((tt >> (a + 2 * b + 4 * c)) & 1); };
      if (n == "constant") { out.push_back(V::scalar(Sc::in(bitsOf(in[0].sc(), 1)))); return true; }
      if (n == "lut3") { out.push_back(V::scalar(at(bit(in[0].sc()), bit(in[1].sc()), bit(in[2].sc()), bitsOf(in[3].sc(), 8)))); return true; }
      if (n == "lut3_args") {
        out.push_back(V::scalar(Sc::in((int64_t)tuples.size())));
        for (int k = 0; k < 3; k++) tuples.push_back(bit(in[k].sc()));
        tuples.push_back(bitsOf(in[3].sc(), 8));
        return true;
      }
      if (n == "pmap_lut3") {
        std::vector<Sc> r;
        for (auto& s : in[0].flat()) { auto* t = &tuples.at((size_t)s.i); r.push_back(at(t[0], t[1], t[2], t[3])); }
        out.push_back(V::tensor({(int64_t)r.size()}, r));
        return true;
      }
      throw Unsupported(full.str());
    }
    return false;
  }
};

// jaxite has tables on three inputs only, and does not return from anything else
static bool allThreeBits(ModuleOp m) {
  bool ok = true;
  auto see = [&](Type t) { t = getElementTypeOrSelf(t); if (isa<lwe::LWECiphertextType, lwe::LWEPlaintextType>(t)) ok &= widthOf(t) == 3; };
  m.walk([&](Operation* op) {
    for (auto t : op->getResultTypes()) see(t);
    for (auto& r : op->getRegions()) for (auto& b : r) for (auto a : b.getArguments()) see(a.getType());
  });
  return ok;
}

// Giving up on a gate after a loop was converted does not return (the rollback in this MLIR), so loops are lowered only where every gate has a counterpart.
static std::pair<bool, bool> hasCounterparts(ModuleOp m, const std::string& backend) {  // may be tried, must succeed
  static const std::map<std::string, std::set<std::string>> known = {{"tfhe-rust", {"and", "or", "xor", "not", "lut2", "lut3", "lut4", "programmable_bootstrap", "sshl", "create_trivial"}},
                                                                     {"tfhe-rust-bool", {"and", "nand", "or", "nor", "xor", "xnor", "not", "packed_gates"}},
                                                                     {"jaxite", {"lut3", "packed_lut3"}}};
  bool loops = false, all = true, tensors = false;
  m.walk([&](Operation* op) {
    loops |= isa<affine::AffineForOp, scf::ForOp, scf::IfOp>(op);
    auto [dia, n] = op->getName().getStringRef().split('.');
    tensors |= dia == "tensor";
    if (dia == "cggi") all &= known.at(backend).count(n.str()) > 0;
    if (dia == "lwe" && backend != "jaxite" && backend != "tfhe-rust") all = false;
  });
  return {!loops || all, all && !tensors};
}

// An argument whose bits are `b` (elements in order, least significant bit first), as a value of the type.
static bool opaque(Type t) {
  if (isa<lwe::LWECiphertextType>(getElementTypeOrSelf(t))) return false;
  std::string s;
  llvm::raw_string_ostream o(s);
  t.print(o);
  return s.find("key") != std::string::npos || s.find("!jaxite.params") != std::string::npos;
}
static bool isCipher(Type t) { t = getElementTypeOrSelf(t); return !isa<IntegerType, IndexType, secret::SecretType>(t); }
static V arg(Type t, const Bits& b) {
  if (auto s = dyn_cast<secret::SecretType>(t)) t = s.getValueType();
  int w = isCipher(t) ? 1 : isa<IndexType>(t) ? 8 : widthOf(t);
  std::vector<Sc> e;
  for (size_t k = 0; k < b.size(); k += w) {
    int64_t v = 0;
    for (int j = 0; j < w; j++) v |= (int64_t)b[k + j] << j;
    e.push_back(Sc::in(isCipher(t) || isa<IndexType>(t) ? (interp::I128)v : interp::wrap(v, w)));
  }
  if (auto r = dyn_cast<RankedTensorType>(t)) return V::tensor(std::vector<int64_t>(r.getShape()), e);
  return V::scalar(e.at(0));
}
static Bits bitsOfResult(Type t, const V& v) {
  if (auto s = dyn_cast<secret::SecretType>(t)) t = s.getValueType();
  Bits r;
  bool c = isCipher(t);
  int w = c ? 1 : widthOf(t);
  for (auto& s : v.flat()) {
    if (s.k != Sc::I) { r.insert(r.end(), w, -1); continue; }
    if (c) r.push_back(s.i == 0 ? 0 : s.i == 1 ? 1 : 1000 + (int)s.i);
    else for (int j = 0; j < w; j++) r.push_back((int)((s.i >> j) & 1));
  }
  return r;
}
struct Result { std::string err; std::vector<Bits> out; };
static Result eval(ModuleOp m, const std::vector<Bits>& args) {
  Result r;
  auto f = m.lookupSymbol<func::FuncOp>("f");
  Circuit c;
  interp::Machine M(m);
  M.ext = [&](interp::Machine&, Operation* op, const Vs& in, Vs& out) { return c.step(op, in, out); };
  try {
    Vs in;
    size_t k = 0;
    for (auto t : f.getArgumentTypes()) in.push_back(opaque(t) ? V::scalar(Sc::in(0)) : arg(t, args.at(k++)));
    auto out = M.call("f", in);
    for (size_t j = 0; j < out.size(); j++) r.out.push_back(bitsOfResult(f.getResultTypes()[j], out[j]));
  } catch (UB& e) { r.err = cat("undefined behaviour: ", e.what()); }
  catch (Unsupported& e) { r.err = cat("cannot be interpreted: ", e.what()); }
  catch (std::out_of_range&) { r.err = "a value of the wrong size"; }
  mc::step(M.steps);
  return r;
}
static std::string show(const std::vector<Bits>& v) {
  std::string s;
  for (auto& b : v) { for (auto x : b) s += x < 0 ? "?" : std::to_string(x); s += " "; }
  return s;
}

// ------------------------------------------------------------------------------------------------ passes
struct Step { std::string name; int from, to; bool must; std::function<void(OpPassManager&)> add; };
enum { SECRET, DIST, CANON, CGGI, DONE };
static std::vector<Step> steps;
static Step vec(int p) {
  return {cat("vectorize", p), CGGI, CGGI, true, [p](OpPassManager& m) { BooleanVectorizerOptions o; o.parallelism = p; m.addPass(createBooleanVectorizer(o)); }};
}
static void setup() {
  auto clean = [](OpPassManager& m) { m.addPass(createCSEPass()); m.addPass(createCanonicalizerPass()); };
  steps = {{"distribute", SECRET, DIST, true, [](OpPassManager& m) { m.addPass(secret::createSecretDistributeGeneric()); }},
           {"canonicalize", DIST, CANON, true, [](OpPassManager& m) { m.addPass(createCanonicalizerPass()); }},
           {"cggi", DIST, CGGI, true, [](OpPassManager& m) { m.addPass(createSecretToCGGI()); }},
           {"cggi", CANON, CGGI, true, [](OpPassManager& m) { m.addPass(createSecretToCGGI()); }},
           vec(0), vec(1), vec(2), vec(3),
           {"straight-line", CGGI, CGGI, true, [](OpPassManager& m) { StraightLineVectorizerOptions o; o.dialect = "cggi"; m.addPass(createStraightLineVectorizer(o)); }},
           {"straight-line-all", CGGI, CGGI, true, [](OpPassManager& m) { m.addPass(createStraightLineVectorizer()); }},
           {"clean", CGGI, CGGI, true, clean},
           {"decompose", CGGI, CGGI, false, [](OpPassManager& m) { m.addPass(cggi::createDecomposeOperations()); }},
           {"decompose-lincomb", CGGI, CGGI, false, [](OpPassManager& m) { cggi::DecomposeOperationsOptions o; o.expandLincomb = false; m.addPass(cggi::createDecomposeOperations(o)); }},
           {"tfhe-rust", CGGI, DONE, false, [clean](OpPassManager& m) { m.addPass(createCGGIToTfheRust()); clean(m); }},
           {"tfhe-rust-bool", CGGI, DONE, false, [clean](OpPassManager& m) { m.addPass(createCGGIToTfheRustBool()); clean(m); }},
           {"jaxite", CGGI, DONE, false, [clean](OpPassManager& m) { m.addPass(createCGGIToJaxite()); clean(m); }}};
}

// Explores every sequence of passes (at most `depth` at the level of gates) and compares the truth functions.
struct Opt { int start = SECRET, depth = 2; bool canonOnly = false, mayReject = false; std::set<std::string> skip; };
static void circuit(const std::string& fam, const std::string& id, const std::string& txt, const std::vector<std::vector<Bits>>& inputs, const Opt& opt = {}) {
  if (!mc::mine() || !mc::begin(cat(fam, ":", id))) return;
  auto before = D->need(txt);
  if (!before) return;
  std::vector<Result> want;
  for (auto& in : inputs) {
    want.push_back(eval(*before, in));
    if (!want.back().err.empty()) { mc::violate(fam + ":harness", cat("the harness's program on ", show(in), ": ", want.back().err, "\n", txt)); return; }
    mc::outcome(show(want.back().out));
  }
  struct Nd { OwningOpRef<ModuleOp> m; std::string path; int at, used; };
  std::vector<Nd> todo;
  todo.push_back({OwningOpRef<ModuleOp>(before->clone()), "", opt.start, 0});
  std::set<std::string> seen;
  mc::state();
  while (!todo.empty()) {
    Nd n = std::move(todo.back());
    todo.pop_back();
    for (auto& s : steps) {
      if (s.from != n.at || opt.skip.count(s.name) || (opt.canonOnly && s.from == DIST && s.name == "cggi")) continue;
      if (s.name == "jaxite" && !allThreeBits(*n.m)) continue;
      auto packs = [](const std::string& p) { return p.find("vectorize") != std::string::npos || p.find("straight") != std::string::npos; };
      if ((packs(s.name) || s.name.rfind("decompose", 0) == 0) && packs(n.path)) continue;  // packed gates are neither packed again nor decomposed
      bool must = s.must;
      if (s.to == DONE) {
        auto [may, all] = hasCounterparts(*n.m, s.name);
        if (!may) continue;
        must |= all;
      }
      if (n.at == CGGI && n.used >= opt.depth && s.to != DONE) continue;
      OwningOpRef<ModuleOp> c(n.m->clone());
      mc::step();
      std::string path = n.path.empty() ? s.name : n.path + "," + s.name;
      auto say = [&](const std::string& kind, const std::string& w) { mc::violate(cat(fam, "/", s.name, kind), cat(mc::S().cur, " after ", path, ": ", w, "\nprogram:\n", txt, "\nbefore ", s.name, ":\n", text(*n.m), "\nafter:\n", text(*c))); };
      if (!D->run(*c, s.add)) {
        if (must && !opt.mayReject) say(":fails", D->diag);
        else mc::count("rejected " + s.name);
        continue;
      }
      if (failed(verify(*c))) { say(":invalid", D->diag); continue; }
      if (!seen.insert(cat(s.to, text(*c))).second) continue;
      mc::state();
      if (s.to == DONE) mc::count("lowered to " + s.name);
      bool good = true;
      for (size_t k = 0; k < inputs.size() && good; k++) {
        auto r = eval(*c, inputs[k]);
        mc::trace();
        mc::eval();
        std::string w = r.err;
        if (w.empty() && r.out.size() != want[k].out.size()) w = "result count changed";
        for (size_t j = 0; w.empty() && j < r.out.size(); j++) {
          if (r.out[j].size() != want[k].out[j].size()) { w = "result size changed"; break; }
          for (size_t b = 0; b < r.out[j].size(); b++) if (want[k].out[j][b] >= 0 && r.out[j][b] != want[k].out[j][b]) w = cat("computes ", show(r.out), ", want ", show(want[k].out));
        }
        if (!w.empty()) { say("", cat("on ", show(inputs[k]), ": ", w)); good = false; }
      }
      if (good && s.to != DONE) todo.push_back({std::move(c), path, s.to, n.used + (n.at == CGGI)});
    }
  }
}

// all assignments to arguments of the given numbers of bits; more than 8 bits in all: every pattern of at most two set bits, and complements
static std::vector<std::vector<Bits>> assignments(const std::vector<int>& w) {
  int n = 0;
  for (int x : w) n += x;
  std::vector<std::vector<Bits>> r;
  auto add = [&](const std::vector<bool>& all) {
    std::vector<Bits> a;
    size_t at = 0;
    for (int x : w) { Bits b; for (int j = 0; j < x; j++) b.push_back(all[at++]); a.push_back(b); }
    r.push_back(a);
  };
  if (n <= 8) { for (int m = 0; m < 1 << n; m++) { std::vector<bool> v; for (int j = 0; j < n; j++) v.push_back(m >> j & 1); add(v); } return r; }
  for (int i = 0; i < n; i++)
    for (int j = i; j < n; j++)
      for (int c = 0; c < 2; c++) { std::vector<bool> v(n, c); v[i] = !c; v[j] = !c; add(v); }
  add(std::vector<bool>(n, false));
  add(std::vector<bool>(n, true));
  return r;
}

// ------------------------------------------------------------------------------------------------ programs with secrets
static const std::vector<std::string> gates = {"and", "nand", "or", "nor", "xor", "xnor"};
static std::string secretFn(const std::string& body, const std::string& yields, int n) {
  std::string ty, sty;
  for (int k = 0; k < n; k++) ty += k ? ", i1" : "i1", sty += k ? ", !secret.secret<i1>" : "!secret.secret<i1>";
  return cat("module {\n  func.func @f(%a: !secret.secret<i1>, %b: !secret.secret<i1>, %c: !secret.secret<i1>, %p: i1, %q: i1) -> (", sty, ") {\n    %t = arith.constant true\n    %z = arith.constant false\n"
             "    %r", n > 1 ? cat(":", n) : "", " = secret.generic(%a: !secret.secret<i1>, %b: !secret.secret<i1>, %c: !secret.secret<i1>, %p: i1, %q: i1) {\n    ^bb0(%A: i1, %B: i1, %C: i1, %P: i1, %Q: i1):\n", body,
             "      secret.yield ", yields, " : ", ty, "\n    } -> (", sty, ")\n    return ",
             [&] { std::string s; for (int k = 0; k < n; k++) s += cat(k ? ", " : "", "%r", n > 1 ? cat("#", k) : ""); return s; }(), " : ", sty, "\n  }\n}\n");
}
static const std::vector<int> five = {1, 1, 1, 1, 1};
struct Node { std::string txt; };
static std::vector<std::string> nodes(const std::string& res, const std::vector<std::string>& pool, const std::vector<std::string>& ops, const std::vector<int>& tables, const std::string& needs) {
  std::vector<std::string> r;
  auto has = [&](std::initializer_list<std::string> l) { if (needs.empty()) return true; for (auto& x : l) if (x == needs) return true; return false; };
  for (auto& x : pool) if (has({x})) r.push_back(cat("      ", res, " = comb.inv ", x, " : i1\n"));
  for (auto& g : ops)
    for (auto& x : pool) for (auto& y : pool) if (has({x, y})) r.push_back(cat("      ", res, " = comb.", g, " ", x, ", ", y, " : i1\n"));
  for (int t : tables)
    for (auto& x : pool) for (auto& y : pool) for (auto& z : pool) if (has({x, y, z})) r.push_back(cat("      ", res, " = comb.truth_table ", x, ", ", y, ", ", z, " -> ", t, " : ui8\n"));
  return r;
}
static void secretDags() {
  auto in = assignments(five);
  // one node over every kind of operand
  int id = 0;
  Opt o;
  o.depth = 2;
  for (auto& n : nodes("%x", {"%A", "%B", "%C", "%P", "%Q", "%t", "%z"}, gates, {0xCA, 0x17, 0x2D}, "")) circuit("one", cat(id++), secretFn(n, "%x", 1), in, o);
  // two nodes, the second of which uses the first
  id = 0;
  std::vector<std::string> ops1 = T ? gates : std::vector<std::string>{"and", "xnor"}, ops2 = T ? gates : std::vector<std::string>{"nand", "xor"};
  for (auto& n : nodes("%x", {"%A", "%B", "%P", "%t"}, ops1, {0xCA}, ""))
    for (auto& m : nodes("%y", T ? std::vector<std::string>{"%x", "%A", "%P"} : std::vector<std::string>{"%x", "%A"}, ops2, {0x2D}, "%x")) {
      Opt p;
      p.depth = T ? 2 : 1;
      circuit("two", cat(id++), secretFn(n + m, "%x, %y", 2), in, p);
    }
}
// Every truth table on three inputs of every kind, 32 to a program; every table on four secret inputs.
static void tables() {
  auto in = assignments(five);
  Opt o;
  o.depth = 1;
  std::vector<std::string> kinds = T ? std::vector<std::string>{"%A", "%B", "%C", "%P", "%Q", "%t", "%z"} : std::vector<std::string>{"%A", "%B", "%P", "%t"};
  for (auto& x : kinds) for (auto& y : kinds) for (auto& z : kinds) {
    for (int base = 0; base < 256; base += 32) {
      std::string body, ys;
      for (int k = 0; k < 32; k++) { body += cat("      %x", k, " = comb.truth_table ", x, ", ", y, ", ", z, " -> ", base + k, " : ui8\n"); ys += cat(k ? ", " : "", "%x", k); }
      Opt q = o;
      q.skip = {"vectorize1", "vectorize3", "decompose-lincomb"};
      if (!T) q.skip.insert("vectorize2");
      circuit("table3", cat(x, y, z, ":", base), secretFn(body, ys, 32), in, q);
    }
  }
  std::vector<std::string> four = {"%A", "%B", "%C", "%P"};
  std::vector<std::vector<std::string>> orders = {{"%A", "%B", "%C", "%P"}, {"%P", "%C", "%B", "%A"}};
  if (T) orders.insert(orders.end(), {{"%B", "%P", "%A", "%C"}, {"%C", "%A", "%P", "%B"}, {"%A", "%A", "%B", "%C"}, {"%A", "%t", "%B", "%C"}});
  int step = 64;
  for (size_t w = 0; w < orders.size(); w++)
    for (int base = 0; base < 65536; base += step * (T ? 1 : 8)) {
      std::string body, ys;
      // quick: one table in eight, all of them reached over the residues of the block
      for (int k = 0; k < step; k++) { int t = T ? base + k : base + 8 * k + (base / (step * 8)) % 8; body += cat("      %x", k, " = comb.truth_table ", orders[w][0], ", ", orders[w][1], ", ", orders[w][2], ", ", orders[w][3], " -> ", t, " : ui16\n"); ys += cat(k ? ", " : "", "%x", k); }
      Opt q;
      q.depth = 0;
      q.canonOnly = true;
      circuit("table4", cat(w, ":", base), secretFn(body, ys, step), in, q);
    }
}

// Integers and tensors of secrets: conceal, cast, extract, insert, from_elements.
static int bitsIn(const std::string& t) {  // i3, tensor<2x3xi4>
  int n = 1;
  size_t k = 0;
  if (t.rfind("tensor<", 0) == 0) { k = 7; while (t[k] != 'i') { n *= std::stoi(t.substr(k)); k = t.find('x', k) + 1; } }
  return n * std::stoi(t.substr(k + 1));
}
static void storage() {
  Opt o;
  o.depth = 1;
  std::vector<std::string> types = {"i1", "i2", "i3", "i8", "tensor<1xi1>", "tensor<3xi1>", "tensor<2x2xi1>", "tensor<1x3xi1>", "tensor<2xi2>", "tensor<3xi2>", "tensor<2x3xi2>", "tensor<3x2xi3>", "tensor<1x1xi4>", "tensor<2x1x2xi2>", "tensor<4xi8>"};
  for (auto& t : types) {
    circuit("conceal", t, cat("module {\n  func.func @f(%a: ", t, ") -> !secret.secret<", t, "> {\n    %r = secret.conceal %a : ", t, " -> !secret.secret<", t, ">\n    return %r : !secret.secret<", t, ">\n  }\n}\n"), assignments({bitsIn(t)}), o);
    int n = bitsIn(t);
    std::vector<std::string> others = {cat("tensor<", n, "xi1>"), cat("tensor<1x", n, "xi1>"), cat("i", n), cat("tensor<1xi", n, ">"), cat("tensor<1x1xi", n, ">")};
    if (n % 2 == 0) { others.push_back(cat("tensor<", n / 2, "x2xi1>")); others.push_back(cat("tensor<2xi", n / 2, ">")); others.push_back(cat("tensor<", n / 2, "xi2>")); }
    if (n % 4 == 0) others.push_back(cat("tensor<2x2xi", n / 4, ">"));
    for (auto& u : others) {
      // one of the two is always the flat tensor of bits that the optimizer works on
      std::string flat = cat("tensor<", n, "xi1>");
      if (u == t || n > 16 || (t == flat) == (u == flat)) continue;
      Opt c = o;
      c.mayReject = true;  // not every pair is supported
      circuit("cast", cat(t, "-", u), cat("module {\n  func.func @f(%a: !secret.secret<", t, ">) -> !secret.secret<", u, "> {\n    %r = secret.cast %a : !secret.secret<", t, "> to !secret.secret<", u, ">\n    return %r : !secret.secret<", u, ">\n  }\n}\n"), assignments({n}), c);
    }
  }
  // tensor operations in a generic; each of tensor and element secret, public or constant
  struct Sh { std::string t, e; std::vector<int> dims; };
  std::vector<Sh> shapes = {{"tensor<3xi1>", "i1", {3}}, {"tensor<2x2xi1>", "i1", {2, 2}}, {"tensor<2xi2>", "i2", {2}}, {"tensor<3xi2>", "i2", {3}}, {"tensor<2x2xi2>", "i2", {2, 2}}, {"tensor<1x2xi3>", "i3", {1, 2}}};
  for (auto& s : shapes) {
    int n = bitsIn(s.t), e = bitsIn(s.e);
    std::vector<std::vector<int>> ix = {{}};
    for (int d : s.dims) { std::vector<std::vector<int>> nx; for (auto& v : ix) for (int k = 0; k < d; k++) { nx.push_back(v); nx.back().push_back(k); } ix = nx; }
    std::string consts;
    for (int k = 0; k < 4; k++) consts += cat("    %i", k, " = arith.constant ", k, " : index\n");
    auto at = [&](const std::vector<int>& v) { std::string r; for (size_t k = 0; k < v.size(); k++) r += cat(k ? ", " : "", "%i", v[k]); return r; };
    auto fn = [&](const std::string& args, const std::string& gen, const std::string& blk, const std::string& body, const std::string& y, const std::string& yt) {
      return cat("module {\n  func.func @f(", args, ") -> !secret.secret<", yt, "> {\n", consts, "    %r = secret.generic(", gen, ") {\n    ^bb0(", blk, "):\n", body, "      secret.yield ", y, " : ", yt, "\n    } -> (!secret.secret<", yt, ">)\n    return %r : !secret.secret<", yt, ">\n  }\n}\n");
    };
    Opt q = o;
    q.canonOnly = true;
    std::string st = cat("!secret.secret<", s.t, ">"), se = cat("!secret.secret<", s.e, ">");
    for (auto& v : ix) {
      std::string id = s.t;
      for (int k : v) id += cat(",", k);
      circuit("extract", id, fn(cat("%a: ", st), cat("%a: ", st), cat("%A: ", s.t), cat("      %x = tensor.extract %A[", at(v), "] : ", s.t, "\n"), "%x", s.e), assignments({n}), q);
      for (int kind = 0; kind < 4; kind++) {  // element: secret, public; destination: secret, public
        bool ps = kind & 1, pt = kind & 2;
        Opt k = q;
        k.mayReject = ps || pt;
        std::string ta = pt ? s.t : st, ea = ps ? s.e : se;
        circuit("insert", cat(id, ":", kind), fn(cat("%a: ", ta, ", %b: ", ea), cat("%a: ", ta, ", %b: ", ea), cat("%A: ", s.t, ", %B: ", s.e), cat("      %x = tensor.insert %B into %A[", at(v), "] : ", s.t, "\n"), "%x", s.t), assignments({n, e}), k);
      }
      // move an element to each other place
      for (auto& u : ix)
        circuit("move", cat(id, "-", at(u)), fn(cat("%a: ", st), cat("%a: ", st), cat("%A: ", s.t), cat("      %x = tensor.extract %A[", at(v), "] : ", s.t, "\n      %y = tensor.insert %x into %A[", at(u), "] : ", s.t, "\n"), "%y", s.t), assignments({n}), q);
    }
    // from_elements of secrets and plaintexts in every order
    int cnt = 1;
    for (int d : s.dims) cnt *= d;
    if (cnt <= 3 && e == 1)
      for (int code = 0, all = (int)std::pow(4, cnt); code < all; code++) {
        std::string l;
        for (int k = 0, c = code; k < cnt; k++, c /= 4) l += cat(k ? ", " : "", (const char*[]){"%A", "%B", "%P", "%t"}[c % 4]);
        circuit("from", cat(s.t, ":", code), fn(cat("%a: ", se, ", %b: ", se, ", %p: ", s.e), cat("%a: ", se, ", %b: ", se, ", %p: ", s.e), cat("%A: ", s.e, ", %B: ", s.e, ", %P: ", s.e), cat("      %t = arith.constant true\n      %x = tensor.from_elements ", l, " : ", s.t, "\n"), "%x", s.t), assignments({e, e, e}), [&] { Opt k = q; k.mayReject = l.find('A') == std::string::npos && l.find('B') == std::string::npos; return k; }());
      }
  }
}
// Loops that carry secrets.
static void loops() {
  Opt o;
  o.depth = 2;
  auto in = assignments(five);
  for (int trips = 0; trips <= 3; trips++)
    for (auto& g : gates)
      for (std::string x : {"%X", "%A", "%P"})
        for (std::string y : {"%X", "%B", "%P"}) {
          if (x != "%X" && y != "%X" && trips > 1) continue;
          std::string txt = cat("module {\n  func.func @f(%a: !secret.secret<i1>, %b: !secret.secret<i1>, %c: !secret.secret<i1>, %p: i1, %q: i1) -> !secret.secret<i1> {\n    %r = affine.for %i = 0 to ", trips, " iter_args(%x = %c) -> (!secret.secret<i1>) {\n"
                                "      %g = secret.generic(%x: !secret.secret<i1>, %a: !secret.secret<i1>, %b: !secret.secret<i1>, %p: i1) {\n      ^bb0(%X: i1, %A: i1, %B: i1, %P: i1):\n        %n = comb.", g, " ", x, ", ", y, " : i1\n        secret.yield %n : i1\n      } -> (!secret.secret<i1>)\n      affine.yield %g : !secret.secret<i1>\n    }\n"
                                "    %s = secret.generic(%r: !secret.secret<i1>, %a: !secret.secret<i1>) {\n    ^bb0(%R: i1, %A: i1):\n      %n = comb.xor %R, %A : i1\n      secret.yield %n : i1\n    } -> (!secret.secret<i1>)\n    return %s : !secret.secret<i1>\n  }\n}\n");
          Opt k = o;
          k.mayReject = x == "%P" && y == "%P";
          circuit("loop", cat(trips, ":", g, x, y), txt, in, k);
        }
}

// ------------------------------------------------------------------------------------------------ programs of gates on ciphertexts
static std::string ctTy(int w) {
  return cat("!lwe.lwe_ciphertext<plaintext_space = #lwe.plaintext_space<ring = #polynomial.ring<coefficientType = i", w, ", polynomialModulus = #polynomial.int_polynomial<x>>, encoding = #lwe.constant_coefficient_encoding<scaling_factor = 268435456>>, ciphertext_space = #lwe.ciphertext_space<ring = #polynomial.ring<coefficientType = i32, polynomialModulus = #polynomial.int_polynomial<x>>, encryption_type = msb, size = 742>, key = #lwe.key<slot_index = 0>>");
}
static std::string cggiFn(int w, const std::string& body, const std::vector<std::string>& rets) {
  std::string l, t;
  for (size_t k = 0; k < rets.size(); k++) { l += (k ? ", " : "") + rets[k]; t += k ? ", !ct" : "!ct"; }
  return cat("!ct = ", ctTy(w), "\nmodule {\n  func.func @f(%a: !ct, %b: !ct, %c: !ct) -> (", t, ") {\n", body, "    return ", l, " : ", t, "\n  }\n}\n");
}
static void cggiDags() {
  auto in = assignments({1, 1, 1});
  for (int w = 3; w <= (T ? 4 : 3); w++) {
    auto gen = [&](const std::string& res, const std::vector<std::string>& pool, int rich) {
      std::vector<std::string> r;
      for (auto& x : pool) r.push_back(cat("    ", res, " = cggi.not ", x, " : !ct\n"));
      std::vector<std::string> gs = rich > 1 ? gates : rich == 1 ? std::vector<std::string>{"nand", "xor"} : std::vector<std::string>{"or"};
      for (auto& g : gs) for (auto& x : pool) for (auto& y : pool) if (rich > 1 || x <= y) r.push_back(cat("    ", res, " = cggi.", g, " ", x, ", ", y, " : !ct\n"));
      for (auto& x : pool) for (auto& y : pool) if (rich || x != y) r.push_back(cat("    ", res, " = cggi.lut2 ", x, ", ", y, " {lookup_table = 2 : ui4} : !ct\n"));
      if (rich) for (auto& x : pool) for (auto& y : pool) for (auto& z : pool) if (rich > 1 || (x != y && y != z)) r.push_back(cat("    ", res, " = cggi.lut3 ", x, ", ", y, ", ", z, " {lookup_table = 202 : ui8} : !ct\n"));
      if (rich) for (auto& x : pool) for (auto& y : pool) if (x != y) r.push_back(cat("    ", res, " = cggi.lut_lincomb ", x, ", ", y, " {coefficients = array<i32: 3, 1>, lookup_table = 26 : ui8} : !ct\n"));
      return r;
    };
    int id = 0;
    Opt o;
    o.start = CGGI;
    o.depth = 3;
    for (auto& n : gen("%x", {"%a", "%b", "%c"}, 2)) circuit("cggi1", cat(w, ":", id++), cggiFn(w, n, {"%x"}), in, o);
    id = 0;
    o.depth = 2;
    for (auto& n : gen("%x", {"%a", "%b"}, 2)) for (auto& m : gen("%y", {"%x", "%a", "%c"}, T ? 2 : 1)) circuit("cggi2", cat(w, ":", id++), cggiFn(w, n + m, {"%x", "%y"}), in, o);
    id = 0;
    for (auto& n : gen("%x", {"%a", "%b"}, T ? 1 : 0)) for (auto& m : gen("%y", {"%x", "%c"}, T ? 1 : 0)) for (auto& l : gen("%v", {"%x", "%y", "%a"}, T ? 1 : 0)) circuit("cggi3", cat(w, ":", id++), cggiFn(w, n + m + l, {"%v", "%x"}), in, o);
  }
  // many gates of one level (packing order and width), then a second level on the packed results
  for (int n = 2; n <= 7; n++)
    for (int mix = 0; mix < 4; mix++) {
      std::string body;
      std::vector<std::string> outs;
      std::vector<std::string> arg = {"%a", "%b", "%c"};
      for (int k = 0; k < n; k++) {
        auto x = arg[k % 3], y = arg[(k + 1 + k / 3) % 3], z = arg[(k + 2) % 3];
        if (mix == 0) body += cat("    %x", k, " = cggi.", gates[k % 6], " ", x, ", ", y, " : !ct\n");
        else if (mix == 1) body += cat("    %x", k, " = cggi.lut3 ", x, ", ", y, ", ", z, " {lookup_table = ", (0xCA + 37 * k) % 256, " : ui8} : !ct\n");
        else if (mix == 2) body += k % 2 ? cat("    %x", k, " = cggi.not ", x, " : !ct\n") : cat("    %x", k, " = cggi.", gates[k % 6], " ", x, ", ", y, " : !ct\n");
        else body += k % 2 ? cat("    %x", k, " = cggi.lut3 ", x, ", ", y, ", ", z, " {lookup_table = ", (0x2D + 11 * k) % 256, " : ui8} : !ct\n") : cat("    %x", k, " = cggi.", gates[(k / 2) % 6], " ", x, ", ", y, " : !ct\n");
        outs.push_back(cat("%x", k));
      }
      for (int k = 0; k + 1 < n; k++) { body += cat("    %y", k, " = cggi.", gates[(k + 2) % 6], " %x", k, ", %x", k + 1, " : !ct\n"); outs.push_back(cat("%y", k)); }
      Opt o;
      o.start = CGGI;
      o.depth = 3;
      circuit("level", cat(n, ":", mix), cggiFn(3, body, outs), in, o);
    }
  // gates inside and around a loop or branch that uses values from outside
  for (int kind = 0; kind < 3; kind++)
    for (int where = 0; where < 5; where++)
      for (auto& g : gates) {
        std::string pre = cat("    %g1 = cggi.", g, " %a, %b : !ct\n    %g2 = cggi.and %b, %c : !ct\n"), in1, res;
        std::vector<std::string> init = {"%c", "%g2", "%c", "%g2", "%c"};
        std::vector<std::string> use = {"%g1", "%g1", "%c", "%c", "%k"};
        std::string ins = where == 4 ? "      %k = cggi.or %g1, %c : !ct\n" : "";
        if (kind == 0) in1 = cat("    %r = affine.for %i = 0 to 3 iter_args(%x = ", init[where], ") -> (!ct) {\n", ins, "      %n = cggi.", g, " %x, ", use[where], " : !ct\n      %m = cggi.xor %n, %a : !ct\n      affine.yield %m : !ct\n    }\n");
        else if (kind == 1) in1 = cat("    %i0 = arith.constant 0 : index\n    %i1 = arith.constant 1 : index\n    %i3 = arith.constant 3 : index\n    %r = scf.for %i = %i0 to %i3 step %i1 iter_args(%x = ", init[where], ") -> (!ct) {\n", ins, "      %n = cggi.", g, " %x, ", use[where], " : !ct\n      %m = cggi.xor %n, %a : !ct\n      scf.yield %m : !ct\n    }\n");
        else in1 = cat("    %t = arith.constant true\n    %r = scf.if %t -> (!ct) {\n", ins, "      %n = cggi.", g, " ", init[where], ", ", use[where], " : !ct\n      scf.yield %n : !ct\n    } else {\n      scf.yield %g1 : !ct\n    }\n");
        std::string post = cat("    %h = cggi.", g, " %r, %a : !ct\n    %h2 = cggi.nor %r, %g2 : !ct\n");
        Opt o;
        o.start = CGGI;
        o.depth = 2;
        circuit("region", cat(kind, ":", where, ":", g), cggiFn(3, pre + in1 + post, {"%h", "%h2"}), in, o);
      }
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  T = mc::thorough();
  DialectRegistry reg;
  reg.insert<mlir::arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, memref::MemRefDialect, affine::AffineDialect, cggi::CGGIDialect, comb::CombDialect, jaxite::JaxiteDialect, lwe::LWEDialect, polynomial::PolynomialDialect, secret::SecretDialect, tfhe_rust::TfheRustDialect, tfhe_rust_bool::TfheRustBoolDialect>();
  Driver d(reg);
  D = &d;
  setup();
  secretDags();
  tables();
  storage();
  loops();
  cggiDags();
  return mc::finish();
}
