#include <sstream>
// P18: layout assignment, kernel lowering and the client interface compute what the tensor program computes.
#include "ctmc.h"
#include "lib/Dialect/HEIRInterfaces.h"
#include "lib/Dialect/Mgmt/IR/MgmtDialect.h"
#include "lib/Dialect/Secret/IR/SecretDialect.h"
#include "lib/Dialect/Secret/IR/SecretTypes.h"
#include "lib/Dialect/TensorExt/Transforms/Passes.h"
#include "lib/Transforms/AddClientInterface/AddClientInterface.h"
#include "lib/Transforms/ApplyFolders/ApplyFolders.h"
#include "lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.h"
#include "lib/Transforms/FoldPlaintextMasks/FoldPlaintextMasks.h"
#include "lib/Transforms/LayoutOptimization/InterfaceImpl.h"
#include "lib/Transforms/LayoutOptimization/LayoutOptimization.h"
#include "lib/Transforms/LayoutPropagation/InterfaceImpl.h"
#include "lib/Transforms/LayoutPropagation/LayoutPropagation.h"
#include "lib/Transforms/OperationBalancer/OperationBalancer.h"
#include "lib/Transforms/Secretize/Passes.h"
#include "mlir/Interfaces/SideEffectInterfaces.h"
using namespace pm;
using namespace mlir::heir;

static Driver* D;
static const char* DBG = getenv("P18_PRINT");

struct Opt { int slots; bool lo = true, unroll = true; CodegenStrategy cg = CodegenStrategy::AUTO; };

static std::string T(const std::vector<int64_t>& sh, const std::string& e = "i32") {
  if (sh.empty()) return e;
  std::string s = "tensor<";
  for (auto x : sh) s += std::to_string(x) + "x";
  return s + e + ">";
}

struct Prog {
  std::string args, body;  // args: "%a: tensor<..> {secret.secret}, ..."; body ends with return
  std::string res;
  std::vector<std::vector<int64_t>> shapes;
  std::string elem = "i32";
  bool mayReject = false;
  std::string text() const { return "func.func @f(" + args + ") -> " + res + " {\n" + body + "}\n"; }
};

static void check(const std::string& key, const Prog& p, const Opt& o) {
  mc::state();
  std::string prog = p.text();
  auto before = D->need(prog);
  if (!before) return;
  auto f0 = before->lookupSymbol<func::FuncOp>("f");
  // formal inputs: one variable per element
  Vs in;
  int var = 0;
  for (auto t : f0.getArgumentTypes()) {
    if (t.isIndex()) { in.push_back(V::scalar(Sc::in(0))); continue; }
    auto s = dyn_cast<RankedTensorType>(t);
    std::vector<int64_t> sh;
    if (s) sh = s.getShape().vec();
    int64_t n = 1;
    for (auto x : sh) n *= x;
    std::vector<Sc> d;
    for (int64_t k = 0; k < n; k++) d.push_back(Sc::var(var++));
    in.push_back(V::tensor(sh, d));
  }
  std::vector<unsigned> indexArgs;
  for (unsigned k = 0; k < f0.getNumArguments(); k++) if (f0.getArgumentTypes()[k].isIndex()) indexArgs.push_back(k);

  auto at = [&](const std::string& stage, const std::function<void(OpPassManager&)>& build, ModuleOp m) {
    if (D->run(m, build)) {
      if (failed(verify(m))) { mc::violate(key + ":" + stage + ":invalid", cat(mc::S().cur, ": invalid IR after ", stage, ": ", D->diag, "\n", prog)); return false; }
      if (DBG) llvm::errs() << "==== " << stage << "\n" << text(m) << "\n";
      return true;
    }
    if (DBG) llvm::errs() << "==== " << stage << " failed: " << D->diag << "\n";
    if (p.mayReject) { mc::count(key.substr(0, key.find(':')) + " rejected by " + stage); return false; }
    mc::violate(key + ":" + stage + ":fails", cat(mc::S().cur, ": ", stage, " rejects a valid program: ", D->diag, "\n", prog));
    return false;
  };
  std::vector<std::pair<std::vector<int64_t>, Outcome>> want;
  auto inputsFor = [&](const std::vector<int64_t>& ix) { Vs v = in; for (size_t k = 0; k < ix.size(); k++) v[indexArgs[k]] = V::scalar(Sc::in(ix[k])); return v; };
  {
    // every value of the index arguments (smaller than the smallest extent used in the program)
    std::vector<int64_t> b(indexArgs.size(), 1);
    if (!indexArgs.empty()) for (auto& x : b) { x = 1 << 30; for (auto& s : p.shapes) for (auto e : s) x = std::min<int64_t>(x, e); }
    std::vector<std::vector<int64_t>> all;
    mc::product(b, [&](const std::vector<int64_t>& v) { all.push_back(v); });
    for (auto& v : all) {
      Outcome r = exec(*before, "f", inputsFor(v), ct::setup);
      if (r.kind == Outcome::UNSUP) { mc::violate(key + ":harness", cat("cannot interpret the program: ", r.why, "\n", prog)); return; }
      if (r.kind == Outcome::UNDEF) { mc::count("undefined inputs skipped"); continue; }
      want.push_back({v, r});
    }
  }
  OwningOpRef<ModuleOp> m(before->clone());
  auto data = [&](const std::string& stage) {
    for (auto& [ix, w] : want) {
      Outcome r = exec(*m, "f", inputsFor(ix), ct::setup);
      mc::eval();
      std::string e = differs(w, r);
      if (!e.empty()) { mc::violate(key + ":" + stage, cat(mc::S().cur, ": after ", stage, ": ", e, "\n", prog, "\nafter:\n", text(*m))); return false; }
    }
    return true;
  };
  if (!at("wrap", [](OpPassManager& pm) { pm.addPass(createWrapGeneric()); pm.addPass(createCanonicalizerPass()); pm.addPass(createCSEPass()); }, *m)) return;
  if (!at("layout-propagation", [&](OpPassManager& pm) { LayoutPropagationOptions lp; lp.minSlotCount = o.slots; pm.addPass(createLayoutPropagation(lp)); }, *m)) return;
  if (!data("layout-propagation")) return;
  if (o.lo) {
    if (!at("layout-optimization", [&](OpPassManager& pm) { LayoutOptimizationOptions lo; lo.minSlotCount = o.slots; pm.addPass(createLayoutOptimization(lo)); pm.addPass(createCSEPass()); }, *m)) return;
    if (!data("layout-optimization")) return;
  }
  if (!at("convert-to-ciphertext-semantics", [&](OpPassManager& pm) {
        ConvertToCiphertextSemanticsOptions c; c.minSlotCount = o.slots; c.unrollKernels = o.unroll; c.codegenStrategy = o.cg;
        pm.addPass(createConvertToCiphertextSemantics(c)); }, *m)) return;

  auto packed = [&](const std::string& stage) {
    auto f = m->lookupSymbol<func::FuncOp>("f");
    for (auto& [ix, w] : want) {
      Vs args, orig = inputsFor(ix);
      for (unsigned k = 0; k < f.getNumArguments(); k++) {
        auto ot = f.getArgAttrOfType<tensor_ext::OriginalTypeAttr>(k, tensor_ext::TensorExtDialect::kOriginalTypeAttrName);
        Type t = f.getArgumentTypes()[k];
        if (auto s = dyn_cast<secret::SecretType>(t)) t = s.getValueType();
        if (!ot) {
          if (isa<secret::SecretType>(f.getArgumentTypes()[k])) { mc::violate(key + ":" + stage + ":original-type", cat(mc::S().cur, ": secret argument ", k, " lost its layout\n", prog)); return false; }
          args.push_back(orig[k]);
          continue;
        }
        std::string bad;
        args.push_back(ct::pack(orig[k], ot.getLayout(), cast<RankedTensorType>(t).getShape().vec(), interp::Machine::elem(t), &bad));
        if (!bad.empty()) { mc::violate(key + ":" + stage + ":layout", cat(mc::S().cur, ": layout of argument ", k, ": ", bad, "\n", prog)); return false; }
      }
      Outcome r = exec(*m, "f", args, ct::setup);
      mc::eval();
      mc::trace();
      auto fail = [&](const std::string& e) { mc::violate(key + ":" + stage, cat(mc::S().cur, ": after ", stage, ": ", e, "\n", prog, "\nafter:\n", text(*m))); return false; };
      if (r.kind == Outcome::UNSUP) return fail("cannot be interpreted: " + r.why);
      if (r.kind == Outcome::UNDEF) return fail("undefined behaviour: " + r.why);
      for (unsigned k = 0; k < r.vals.size(); k++) {
        auto ot = f.getResultAttrOfType<tensor_ext::OriginalTypeAttr>(k, tensor_ext::TensorExtDialect::kOriginalTypeAttrName);
        const V &got = r.vals[k], &ref = w.vals[k];
        if (!ot) {
          if (isa<secret::SecretType>(f.getResultTypes()[k])) return fail(cat("secret result ", k, " lost its layout"));
          for (size_t j = 0; j < ref.d->size(); j++) if (!got.d->at(j).refines(ref.d->at(j))) return fail(cat("result ", k, " element ", j, " is ", got.d->at(j).str(), ", want ", ref.d->at(j).str()));
          continue;
        }
        auto pts = ct::points(ot.getLayout());
        std::set<lr::Pt> have;
        for (auto& q : pts) {
          size_t nd = q.size() - got.shape.size();
          lr::Pt e(q.begin(), q.begin() + nd), s(q.begin() + nd, q.end());
          if (ref.shape.empty()) e.clear();
          for (size_t d = 0; d < s.size(); d++) if (s[d] < 0 || s[d] >= got.shape[d]) return fail(cat("the layout of result ", k, " maps element (", mc::join(e), ") to slot (", mc::join(s), ") outside the ciphertexts"));
          have.insert(e);
          mc::step(1);
          if (!got.at(s).refines(ref.at(e))) return fail(cat("result ", k, " slot (", mc::join(s), ") is ", got.at(s).str(), ", but its layout says element (", mc::join(e), ") = ", ref.at(e).str()));
        }
        // an element without a slot decrypts to zero
        bool rest = true;
        ref.each([&](llvm::ArrayRef<int64_t> e) { if (!have.count(lr::Pt(e.begin(), e.end())) && !(Sc::in(0).refines(ref.at(lr::Pt(e.begin(), e.end()))))) rest = false; });
        if (!rest) return fail(cat("the layout of result ", k, " holds ", have.size(), " of ", ref.size(), " elements"));
      }
    }
    mc::outcome(cat(key, stage, show(want[0].second.vals)));
    return true;
  };
  if (want.empty()) return;
  if (!packed("convert-to-ciphertext-semantics")) return;
  if (!at("rotations-and-masks", [&](OpPassManager& pm) {
        pm.addPass(createApplyFolders()); pm.addPass(createCanonicalizerPass()); pm.addPass(tensor_ext::createImplementRotateAndReduce());
        pm.addPass(tensor_ext::createImplementShiftNetwork()); pm.addPass(createCanonicalizerPass()); pm.addPass(createCSEPass());
        pm.addPass(createFoldPlaintextMasks()); pm.addPass(createCanonicalizerPass()); pm.addPass(createCSEPass()); pm.addPass(createOperationBalancer()); }, *m)) return;
  if (!packed("rotations-and-masks")) return;
  if (!at("add-client-interface", [&](OpPassManager& pm) { AddClientInterfaceOptions c; c.minSlotCount = o.slots; pm.addPass(createAddClientInterface(c)); }, *m)) return;
  // encrypt ; compute ; decrypt
  auto f = m->lookupSymbol<func::FuncOp>("f");
  for (auto& [ix, w] : want) {
    Vs args, orig = inputsFor(ix);
    auto fail = [&](const std::string& e) { mc::violate(key + ":client", cat(mc::S().cur, ": encrypt, compute, decrypt: ", e, "\n", prog, "\nafter:\n", text(*m))); };
    bool ok = true;
    auto call = [&](const std::string& n, const Vs& a) {
      Outcome r = exec(*m, n, a, ct::setup);
      if (r.kind != Outcome::OK) { fail(n + ": " + r.why); ok = false; }
      return r;
    };
    for (unsigned k = 0; ok && k < f.getNumArguments(); k++) {
      std::string enc = cat("f__encrypt__arg", k), pk = cat("f__packed_plaintext__arg", k);
      if (isa<secret::SecretType>(f.getArgumentTypes()[k])) { auto r = call(enc, {orig[k]}); if (ok) args.push_back(r.vals[0]); }
      else if (m->lookupSymbol<func::FuncOp>(pk)) { auto r = call(pk, {orig[k]}); if (ok) args.push_back(r.vals[0]); }
      else args.push_back(orig[k]);
    }
    if (!ok) return;
    auto r = call("f", args);
    for (unsigned k = 0; ok && k < r.vals.size(); k++) {
      V got = r.vals[k];
      if (isa<secret::SecretType>(f.getResultTypes()[k])) { auto q = call(cat("f__decrypt__result", k), {got}); if (!ok) return; got = q.vals[0]; }
      const V& ref = w.vals[k];
      if (got.d->size() != ref.d->size()) { fail("result size"); return; }
      for (size_t j = 0; j < ref.d->size(); j++) if (!got.d->at(j).refines(ref.d->at(j))) { fail(cat("result ", k, " element ", j, " is ", got.d->at(j).str(), ", want ", ref.d->at(j).str())); return; }
    }
    mc::trace();
  }
  mc::count(key.substr(0, key.find(':')) + " accepted");
}

static std::string sec(const std::string& n, const std::vector<int64_t>& sh, const std::string& e = "i32") { return "%" + n + ": " + T(sh, e) + " {secret.secret}"; }
static std::string pub(const std::string& n, const std::vector<int64_t>& sh, const std::string& e = "i32") { return "%" + n + ": " + T(sh, e); }
// a dense constant with distinct values
static std::string cst(const std::string& n, const std::vector<int64_t>& sh, int base = 2, const std::string& e = "i32") {
  std::string v;
  int k = base;
  std::function<std::string(size_t)> rec = [&](size_t d) -> std::string {
    if (d == sh.size()) { auto s = std::to_string(k); k += 3; return e[0] == 'f' ? s + ".0" : s; }
    std::string r = "[";
    for (int64_t i = 0; i < sh[d]; i++) r += (i ? ", " : "") + rec(d + 1);
    return r + "]";
  };
  return "  %" + n + " = arith.constant dense<" + rec(0) + "> : " + T(sh, e) + "\n";
}
static std::string zeros(const std::string& n, const std::vector<int64_t>& sh, const std::string& e = "i32") { return "  %" + n + " = arith.constant dense<" + (e[0] == 'f' ? "0.0" : "0") + "> : " + T(sh, e) + "\n"; }
static std::string vname(std::vector<int64_t> s) { return mc::join(s, "x"); }

// the family; for chains also the operations
static std::string key(const std::string& id) {
  auto k = id.find(':');
  if (id.rfind("chain:", 0)) return id.substr(0, k);
  auto j = id.find(':', k + 1);
  // known finding: what an elementwise operation adds to the padding of a padded tensor is lost
  bool padded = false;
  std::istringstream is(id.substr(j + 1));
  for (std::string t; std::getline(is, t, ':');) {
    if (padded && t == "add") return "chain:pad-add";
    padded = t == "pad" || (padded && (t == "sq" || t == "loop"));
  }
  return "chain" + id.substr(j);
}
static void go(const std::string& id, const Prog& p, const Opt& o) {
  std::string full = cat(id, ":s", o.slots, o.lo ? "" : ":nolo", o.unroll ? "" : ":rolled", o.cg == CodegenStrategy::AUTO ? "" : cat(":cg", (int)o.cg));
  if (!mc::mine() || !mc::begin(full)) return;
  mc::doing(key(id));
  mc::guarded([&] { check(key(id), p, o); });
}
// every slot count that holds the largest tensor in at most `cts` ciphertexts
static void each(const std::string& id, const Prog& p, const std::vector<int>& slots, bool both = true) {
  for (int s : slots) {
    go(id, p, {s});
    if (both) { go(id, p, {s, false}); go(id, p, {s, true, false}); }
  }
}

static int64_t o18(const std::vector<int64_t>& s) { int64_t n = 1; for (auto x : s) n *= x; return n; }
static std::string A(bool f, const char* op) { return std::string("arith.") + op + (f ? "f" : "i"); }

static void elementwise() {
  std::vector<std::vector<int64_t>> shapes{{}, {1}, {2}, {3}, {4}, {5}, {8}, {2, 2}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {2, 2, 2}, {1, 3, 2}};
  for (auto& sh : shapes)
    for (int kind = 0; kind < 6; kind++) {
      Prog p;
      p.shapes = {sh}; p.res = T(sh);
      std::string t = T(sh);
      std::string c = sh.empty() ? "  %c = arith.constant 5 : i32\n" : cst("c", sh);
      switch (kind) {
        case 0: p.args = sec("a", sh) + ", " + sec("b", sh); p.body = "  %0 = arith.addi %a, %b : " + t + "\n  %1 = arith.muli %0, %a : " + t + "\n  return %1 : " + t + "\n"; break;
        case 1: p.args = sec("a", sh); p.body = c + "  %0 = arith.muli %a, %c : " + t + "\n  return %0 : " + t + "\n"; break;
        case 2: p.args = sec("a", sh) + ", " + pub("b", sh); p.body = "  %0 = arith.subi %b, %a : " + t + "\n  return %0 : " + t + "\n"; break;
        case 3: p.args = sec("a", sh); p.body = c + "  %0 = arith.addi %a, %a : " + t + "\n  %1 = arith.subi %0, %c : " + t + "\n  return %1, %0 : " + t + ", " + t + "\n"; p.res = "(" + t + ", " + t + ")"; break;
        case 4: p.args = sec("a", sh); p.body = "  return %a : " + t + "\n"; break;
        case 5: p.args = sec("a", sh) + ", " + pub("b", sh); p.body = "  %0 = arith.muli %b, %b : " + t + "\n  %1 = arith.addi %a, %0 : " + t + "\n  return %1 : " + t + "\n"; break;
      }
      each(cat("elem:", kind, ":", vname(sh)), p, {4, 8, 16}, kind < 2);
    }
}

// kinds of second operand: constant, cleartext argument, secret argument
static std::string operand(int kind, const std::vector<int64_t>& sh, std::string& args, std::string& pre, const std::string& n = "m") {
  if (kind == 0) pre += cst(n, sh);
  else args += ", " + (kind == 1 ? pub(n, sh) : sec(n, sh));
  return "%" + n;
}
static void matvec() {
  int N = mc::thorough() ? 6 : 4;
  for (int64_t r = 1; r <= N; r++)
    for (int64_t c = 1; c <= N; c++)
      for (int vm = 0; vm < 2; vm++)
        for (int kind = 0; kind < 2; kind++)
          for (int init = 0; init < 2; init++) {
            Prog p;
            std::vector<int64_t> ms{r, c}, vs{vm ? r : c}, os{vm ? c : r};
            p.shapes = {ms, vs};
            p.mayReject = vm;  // vecmat has a layout but no kernel
            p.args = sec("v", vs);
            std::string pre;
            operand(kind, ms, p.args, pre);
            pre += init ? cst("z", os, 7) : zeros("z", os);
            p.res = T(os);
            p.body = pre + (vm ? "  %0 = linalg.vecmat ins(%v, %m : " + T(vs) + ", " + T(ms) + ")" : "  %0 = linalg.matvec ins(%m, %v : " + T(ms) + ", " + T(vs) + ")") + " outs(%z : " + T(os) + ") -> " + T(os) + "\n  return %0 : " + T(os) + "\n";
            each(cat(vm ? "vecmat:" : "matvec:", kind, init, ":", r, "x", c), p, {8, 16}, kind == 0 && init == 0);
          }
}

static void dot() {
  for (int64_t n : {1, 2, 3, 4, 5, 6, 7, 8})
    for (int kind = 0; kind < 3; kind++) {
      Prog p;
      std::vector<int64_t> vs{n};
      p.shapes = {vs};
      p.args = sec("v", vs);
      std::string pre, t = T(vs);
      operand(kind, vs, p.args, pre);
      pre += "  %z = arith.constant dense<" + std::string(n % 2 ? "0" : "9") + "> : tensor<i32>\n";
      p.res = "tensor<i32>";
      p.body = pre + "  %0 = linalg.dot ins(%v, %m : " + t + ", " + t + ") outs(%z : tensor<i32>) -> tensor<i32>\n  return %0 : tensor<i32>\n";
      each(cat("dot:", kind, ":", n), p, {8, 16});
    }
}
static void reduce() {
  std::vector<std::vector<int64_t>> shapes{{2}, {3}, {4}, {5}, {8}, {2, 2}, {2, 3}, {3, 2}, {4, 4}, {1, 4}, {4, 1}, {2, 2, 2}, {2, 3, 2}};
  for (auto& sh : shapes)
    for (int mask = 1; mask < 1 << sh.size(); mask++)
      for (int mul = 0; mul < 2; mul++)
        for (int init = 0; init < 2; init++) {
          Prog p;
          std::vector<int64_t> os, dims;
          for (size_t k = 0; k < sh.size(); k++) (mask >> k & 1 ? dims : os).push_back(mask >> k & 1 ? k : sh[k]);
          p.shapes = {sh};
          p.args = sec("v", sh);
          p.mayReject = dims.size() > 1 || (o18(sh) > 8);
          std::string o = os.empty() ? "tensor<i32>" : T(os);
          p.res = o;
          p.body = "  %z = arith.constant dense<" + std::to_string(init ? 7 : mul) + "> : " + o + "\n  %r = linalg.reduce { " + A(0, mul ? "mul" : "add") + " } ins(%v : " + T(sh) + ") outs(%z : " + o + ") dimensions = [" + mc::join(dims, ", ") + "]\n  return %r : " + o + "\n";
          each(cat("reduce:", mul, init, ":", vname(sh), ":", mask), p, {8, 16}, false);
        }
}
static void matmul() {
  int N = mc::thorough() ? 4 : 3;
  for (int kind = 0; kind < 4; kind++)  // second operand constant, cleartext, secret; 3: constant times secret
    for (int64_t a = 1; a <= N; a++)
      for (int64_t b = 1; b <= N; b++)
        for (int64_t c = 1; c <= N; c++) {
          Prog p;
          std::vector<int64_t> x{a, b}, y{b, c}, z{a, c};
          p.shapes = {x, y, z};
          std::string pre;
          if (kind < 3) { p.args = sec("x", x); operand(kind, y, p.args, pre, "y"); }
          else { p.args = sec("y", y); pre = cst("x", x); }
          pre += (a + c) % 2 ? zeros("z", z) : cst("z", z, 5);
          p.res = T(z);
          p.body = pre + "  %0 = linalg.matmul ins(%x, %y : " + T(x) + ", " + T(y) + ") outs(%z : " + T(z) + ") -> " + T(z) + "\n  return %0 : " + T(z) + "\n";
          p.mayReject = true;
          each(cat("matmul:", kind, ":", a, b, c), p, {8, 16, 64}, false);
        }
}
static void batchMatmul() {
  for (int kind = 0; kind < 3; kind++)
    for (int64_t h = 1; h <= 3; h++)
      for (int64_t a = 1; a <= 3; a++)
        for (int64_t b = 1; b <= 3; b++)
          for (int64_t c = 1; c <= 3; c++) {
            Prog p;
            std::vector<int64_t> x{h, a, b}, y{h, b, c}, z{h, a, c};
            p.shapes = {x, y, z};
            std::string pre;
            p.args = sec("x", x);
            operand(kind, y, p.args, pre, "y");
            pre += zeros("z", z);
            p.res = T(z);
            p.body = pre + "  %0 = linalg.batch_matmul ins(%x, %y : " + T(x) + ", " + T(y) + ") outs(%z : " + T(z) + ") -> " + T(z) + "\n  return %0 : " + T(z) + "\n";
            p.mayReject = true;
            each(cat("batch:", kind, ":", h, a, b, c), p, {32, 64, 128}, false);
          }
}
static void conv() {
  for (int kind = 0; kind < 2; kind++)
    for (int init = 0; init < 2; init++) {
      for (int64_t n = 2; n <= (mc::thorough() ? 8 : 6); n++)
        for (int64_t f = 1; f <= 3 && f <= n; f++) {
          Prog p;
          std::vector<int64_t> x{n}, y{f}, z{n - f + 1};
          p.shapes = {x, y};
          p.args = sec("x", x);
          std::string pre;
          operand(kind, y, p.args, pre, "y");
          pre += init ? cst("z", z, 5) : zeros("z", z);
          p.res = T(z);
          p.body = pre + "  %0 = linalg.conv_1d ins(%x, %y : " + T(x) + ", " + T(y) + ") outs(%z : " + T(z) + ") -> " + T(z) + "\n  return %0 : " + T(z) + "\n";
          each(cat("conv1d:", kind, init, ":", n, f), p, {8, 16}, kind == 0 && init == 0);
        }
      for (int64_t h = 1; h <= 4; h++)
        for (int64_t w = 1; w <= 4; w++)
          for (int64_t fh = 1; fh <= 2 && fh <= h; fh++)
            for (int64_t fw = 1; fw <= 2 && fw <= w; fw++) {
              Prog p;
              std::vector<int64_t> x{h, w}, y{fh, fw}, z{h - fh + 1, w - fw + 1};
              p.shapes = {x, y};
              p.args = sec("x", x);
              std::string pre;
              operand(kind, y, p.args, pre, "y");
              pre += init ? cst("z", z, 5) : zeros("z", z);
              p.res = T(z);
              p.body = pre + "  %0 = linalg.conv_2d ins(%x, %y : " + T(x) + ", " + T(y) + ") outs(%z : " + T(z) + ") -> " + T(z) + "\n  return %0 : " + T(z) + "\n";
              each(cat("conv2d:", kind, init, ":", h, w, fh, fw), p, {16}, kind == 0 && init == 0);
            }
      for (int64_t ci = 1; ci <= 2; ci++)
        for (int64_t co = 1; co <= 3; co++)
          for (int64_t n = 2; n <= 4; n++)
            for (int64_t f = 1; f <= 2; f++)
              for (int64_t s = 1; s <= 2; s++) {
                Prog p;
                std::vector<int64_t> x{1, ci, n}, y{co, ci, f}, z{1, co, (n - f) / s + 1};
                p.shapes = {x, y};
                p.args = sec("x", x);
                std::string pre;
                operand(kind, y, p.args, pre, "y");
                pre += init ? cst("z", z, 5) : zeros("z", z);
                p.mayReject = s > 1;  // output channels must fill the gaps of the stride
                p.res = T(z);
                p.body = pre + "  %0 = linalg.conv_1d_ncw_fcw {dilations = dense<1> : vector<1xi64>, strides = dense<" + std::to_string(s) + "> : vector<1xi64>} ins(%x, %y : " + T(x) + ", " + T(y) + ") outs(%z : " + T(z) + ") -> " + T(z) + "\n  return %0 : " + T(z) + "\n";
                each(cat("conv1dncw:", kind, init, ":", ci, co, n, f, s), p, {16}, kind == 0 && init == 0);
              }
      for (int64_t ci = 1; ci <= 2; ci++)
        for (int64_t co = 1; co <= 2; co++)
          for (int64_t h = 2; h <= 3; h++)
            for (int64_t w = 2; w <= 3; w++)
              for (int64_t f = 1; f <= 2; f++)
                for (int64_t s = 1; s <= 2; s++) {
                  Prog p;
                  std::vector<int64_t> x{1, ci, h, w}, y{co, ci, f, f}, z{1, co, (h - f) / s + 1, (w - f) / s + 1};
                  p.shapes = {x, y};
                  p.args = sec("x", x);
                  std::string pre;
                  operand(kind, y, p.args, pre, "y");
                  pre += init ? cst("z", z, 5) : zeros("z", z);
                  p.mayReject = s > 1;
                  p.res = T(z);
                  p.body = pre + "  %0 = linalg.conv_2d_nchw_fchw {dilations = dense<1> : vector<2xi64>, strides = dense<" + std::to_string(s) + "> : vector<2xi64>} ins(%x, %y : " + T(x) + ", " + T(y) + ") outs(%z : " + T(z) + ") -> " + T(z) + "\n  return %0 : " + T(z) + "\n";
                  each(cat("conv2dnchw:", kind, init, ":", ci, co, h, w, f, s), p, {32}, kind == 0 && init == 0);
                }
    }
}
static void access() {
  std::vector<std::vector<int64_t>> shapes{{1}, {3}, {4}, {5}, {2, 2}, {2, 3}, {3, 4}, {2, 1, 2}};
  for (auto& sh : shapes) {
    std::string t = T(sh);
    std::vector<std::vector<int64_t>> all;
    mc::product(sh, [&](const std::vector<int64_t>& v) { all.push_back(v); });
    auto consts = [&](const std::vector<int64_t>& ix, std::string& pre, const std::string& n) {
      std::string r;
      for (size_t k = 0; k < ix.size(); k++) { pre += cat("  %", n, k, " = arith.constant ", ix[k], " : index\n"); r += cat(k ? ", " : "", "%", n, k); }
      return r;
    };
    for (auto& ix : all) {
      Prog p;
      p.shapes = {sh};
      std::string pre, at = consts(ix, pre, "i");
      p.mayReject = o18(sh) > 4;  // several ciphertexts
      p.args = sec("a", sh); p.res = "i32";
      p.body = pre + "  %0 = tensor.extract %a[" + at + "] : " + t + "\n  return %0 : i32\n";
      each(cat("extract:", vname(sh), ":", mc::join(ix, "_")), p, {4, 16}, false);
      p.body = pre + "  %0 = tensor.extract %a[" + at + "] : " + t + "\n  %1 = arith.muli %0, %0 : i32\n  return %1, %0 : i32, i32\n";
      p.res = "(i32, i32)";
      each(cat("extractmul:", vname(sh), ":", mc::join(ix, "_")), p, {8}, false);
      for (int kind = 0; kind < 4; kind++) {
        Prog q;
        q.shapes = {sh};
        q.res = t;
        q.mayReject = kind >= 2;
        q.args = kind == 3 ? pub("a", sh) + ", " + sec("s", {}) : sec("a", sh) + (kind == 1 ? ", " + pub("s", {}) : kind == 2 ? ", " + sec("s", {}) : "");
        q.body = pre + (kind == 0 ? "  %s = arith.constant 42 : i32\n" : "") + "  %0 = tensor.insert %s into %a[" + at + "] : " + t + "\n  return %0 : " + t + "\n";
        each(cat("insert:", kind, ":", vname(sh), ":", mc::join(ix, "_")), q, {4, 16}, false);
      }
    }
    // addresses known only at run time
    Prog p;
    p.shapes = {sh};
    p.args = sec("a", sh);
    std::string at;
    for (size_t k = 0; k < sh.size(); k++) { p.args += cat(", %i", k, ": index"); at += cat(k ? ", " : "", "%i", k); }
    p.res = "i32";
    p.body = "  %0 = tensor.extract %a[" + at + "] : " + t + "\n  return %0 : i32\n";
    p.mayReject = true;
    each(cat("extractdyn:", vname(sh)), p, {4, 16}, false);
    p.args += ", " + sec("s", {});
    p.res = t;
    p.body = "  %0 = tensor.insert %s into %a[" + at + "] : " + t + "\n  return %0 : " + t + "\n";
    each(cat("insertdyn:", vname(sh)), p, {4, 16}, false);
  }
}
static void slices() {
  std::vector<std::vector<int64_t>> shapes{{3}, {4}, {5}, {2, 2}, {2, 3}, {3, 4}, {2, 2, 2}};
  for (auto& sh : shapes) {
    std::vector<int64_t> b;
    for (auto x : sh) { b.push_back(x); b.push_back(x); b.push_back(2); }
    mc::product(b, [&](const std::vector<int64_t>& v) {
      std::vector<int64_t> off, sz, st;
      for (size_t k = 0; k < sh.size(); k++) { off.push_back(v[3 * k]); sz.push_back(v[3 * k + 1] + 1); st.push_back(v[3 * k + 2] + 1); if (off[k] + (sz[k] - 1) * st[k] >= sh[k]) return; if (sz[k] == 1 && st[k] > 1) return; }
      if (sh.size() == 3 && !mc::thorough()) for (size_t k = 0; k < 3; k++) if (sz[k] == 1 && off[k] != 1) return;
      std::string spec = cat("[", mc::join(off, ", "), "] [", mc::join(sz, ", "), "] [", mc::join(st, ", "), "]");
      // keep every dimension, or drop the unit ones
      for (int drop = 0; drop < 2; drop++) {
        std::vector<int64_t> rs;
        for (auto x : sz) if (!drop || x != 1) rs.push_back(x);
        if (drop && (rs.size() == sz.size() || rs.empty())) continue;
        std::string id = cat(vname(sh), ":", mc::join(off, ""), "_", mc::join(sz, ""), "_", mc::join(st, ""), drop ? "r" : "");
        Prog p;
        p.shapes = {sh};
        p.args = sec("a", sh); p.res = T(rs);
        p.body = "  %0 = tensor.extract_slice %a" + spec + " : " + T(sh) + " to " + T(rs) + "\n  return %0 : " + T(rs) + "\n";
        each("xslice:" + id, p, {8}, false);
        for (int kind = 0; kind < 3; kind++) {  // source: constant, cleartext, secret; into secret
          Prog q;
          q.shapes = {sh};
          q.mayReject = true;
          q.args = sec("a", sh);
          std::string pre;
          operand(kind, rs, q.args, pre, "s");
          q.res = T(sh);
          q.body = pre + "  %0 = tensor.insert_slice %s into %a" + spec + " : " + T(rs) + " into " + T(sh) + "\n  return %0 : " + T(sh) + "\n";
          each(cat("islice:", kind, ":", id), q, {8}, false);
        }
        Prog q;
        q.shapes = {sh};
        q.mayReject = sz != sh;
        q.args = sec("s", rs);
        q.res = T(sh);
        q.body = cst("a", sh) + "  %0 = tensor.insert_slice %s into %a" + spec + " : " + T(rs) + " into " + T(sh) + "\n  return %0 : " + T(sh) + "\n";
        each(cat("islice:3:", id), q, {8}, false);
      }
    });
  }
}
static void shapesOps() {
  std::vector<std::vector<int64_t>> shapes{{2}, {3}, {2, 2}, {2, 3}, {3, 1}, {1, 2, 2}};
  for (auto& sh : shapes) {
    mc::product(std::vector<int64_t>(2 * sh.size(), 3), [&](const std::vector<int64_t>& v) {
      std::vector<int64_t> lo, hi, rs;
      for (size_t k = 0; k < sh.size(); k++) { lo.push_back(v[2 * k]); hi.push_back(v[2 * k + 1]); rs.push_back(sh[k] + lo[k] + hi[k]); }
      if (sh.size() == 3) for (auto x : v) if (x == 2) return;
      for (int val : {0, 6}) {
        Prog p;
        p.shapes = {sh};
        p.args = sec("a", sh); p.res = T(rs);
        std::string bb;
        for (size_t k = 0; k < sh.size(); k++) bb += cat(k ? ", " : "", "%i", k, ": index");
        p.body = cat("  %z = arith.constant ", val, " : i32\n  %0 = tensor.pad %a low[", mc::join(lo, ", "), "] high[", mc::join(hi, ", "), "] {\n  ^bb0(", bb, "):\n    tensor.yield %z : i32\n  } : ", T(sh), " to ", T(rs), "\n  return %0 : ", T(rs), "\n");
        p.mayReject = val != 0;
        each(cat("pad:", val, ":", vname(sh), ":", mc::join(v, "")), p, {32}, false);
      }
    });
  }
  // collapse and expand: all groupings
  std::vector<std::vector<int64_t>> big{{2, 3}, {1, 4}, {4, 1}, {2, 2, 2}, {1, 3, 2}, {3, 1, 2}, {2, 3, 1}, {1, 1, 3}, {2, 1, 1}, {1, 2, 1, 2}};
  for (auto& sh : big)
    for (int mask = 0; mask < 1 << (sh.size() - 1); mask++) {
      std::vector<int64_t> rs;
      std::string re = "[[0";
      rs.push_back(sh[0]);
      for (size_t k = 1; k < sh.size(); k++) {
        if (mask >> (k - 1) & 1) { re += cat("], [", k); rs.push_back(sh[k]); }
        else { re += cat(", ", k); rs.back() *= sh[k]; }
      }
      re += "]]";
      if (rs.size() == sh.size()) continue;
      Prog p;
      p.shapes = {sh};
      p.args = sec("a", sh); p.res = T(rs);
      p.body = "  %0 = tensor.collapse_shape %a " + re + " : " + T(sh) + " into " + T(rs) + "\n  return %0 : " + T(rs) + "\n";
      each(cat("collapse:", vname(sh), ":", mask), p, {4, 16}, false);
      Prog q;
      q.shapes = {sh};
      q.args = sec("a", rs); q.res = T(sh);
      q.mayReject = true;  // only unit dimensions can be added
      q.body = cat("  %0 = tensor.expand_shape %a ", re, " output_shape [", mc::join(sh, ", "), "] : ", T(rs), " into ", T(sh), "\n  return %0 : ", T(sh), "\n");
      each(cat("expand:", vname(sh), ":", mask), q, {4, 16}, false);
    }
}
// Programs of two and three operations, so that one operation's result layout is the next one's operand layout.
static void chains() {
  struct Step { std::string name; std::function<bool(const std::string& in, const std::vector<int64_t>& sh, const std::string& out, std::vector<int64_t>& osh, std::string& body)> emit; };
  auto one = [](const std::vector<int64_t>& s) { return s.size() == 1; };
  auto two = [](const std::vector<int64_t>& s) { return s.size() == 2; };
  std::vector<Step> steps;
  auto unary = [&](const std::string& n, auto f) { steps.push_back({n, f}); };
  typedef const std::string& S;
  typedef const std::vector<int64_t>& H;
  unary("add", [](S i, H s, S o, std::vector<int64_t>& os, std::string& b) { os = s; b += cst("c" + o, s, 3) + "  %" + o + " = arith.addi %" + i + ", %c" + o + " : " + T(s) + "\n"; return true; });
  unary("sq", [](S i, H s, S o, std::vector<int64_t>& os, std::string& b) { os = s; b += "  %" + o + " = arith.muli %" + i + ", %" + i + " : " + T(s) + "\n"; return true; });
  unary("arg", [](S i, H s, S o, std::vector<int64_t>& os, std::string& b) { os = s; if (s != std::vector<int64_t>{3} && s != std::vector<int64_t>{2, 3}) return false; b += "  %" + o + " = arith.muli %" + i + ", %" + (s.size() == 1 ? "u" : "w") + " : " + T(s) + "\n"; return true; });
  for (int64_t r : {2, 3, 4})
    unary(cat("mv", r), [=](S i, H s, S o, std::vector<int64_t>& os, std::string& b) {
      if (!one(s)) return false;
      os = {r};
      b += cst("m" + o, {r, s[0]}) + cst("z" + o, os, 7) + "  %" + o + " = linalg.matvec ins(%m" + o + ", %" + i + " : " + T({r, s[0]}) + ", " + T(s) + ") outs(%z" + o + " : " + T(os) + ") -> " + T(os) + "\n";
      return true;
    });
  for (int64_t f : {2})
    unary(cat("conv", f), [=](S i, H s, S o, std::vector<int64_t>& os, std::string& b) {
      if (!one(s) || s[0] < f) return false;
      os = {s[0] - f + 1};
      b += cst("f" + o, {f}) + cst("z" + o, os, 7) + "  %" + o + " = linalg.conv_1d ins(%" + i + ", %f" + o + " : " + T(s) + ", " + T({f}) + ") outs(%z" + o + " : " + T(os) + ") -> " + T(os) + "\n";
      return true;
    });
  unary("conv2d", [=](S i, H s, S o, std::vector<int64_t>& os, std::string& b) {
    if (!two(s) || s[0] < 2 || s[1] < 2) return false;
    os = {s[0] - 1, s[1] - 1};
    b += cst("f" + o, {2, 2}) + zeros("z" + o, os) + "  %" + o + " = linalg.conv_2d ins(%" + i + ", %f" + o + " : " + T(s) + ", " + T({2, 2}) + ") outs(%z" + o + " : " + T(os) + ") -> " + T(os) + "\n";
    return true;
  });
  for (int d = 0; d < 2; d++)
    unary(cat("red", d), [=](S i, H s, S o, std::vector<int64_t>& os, std::string& b) {
      if (!two(s)) return false;
      os = {s[1 - d]};
      b += cst("z" + o, os, 2) + "  %" + o + " = linalg.reduce { arith.addi } ins(%" + i + " : " + T(s) + ") outs(%z" + o + " : " + T(os) + ") dimensions = [" + std::to_string(d) + "]\n";
      return true;
    });
  for (int l = 0; l < 2; l++)
    unary(cat("mm", l), [=](S i, H s, S o, std::vector<int64_t>& os, std::string& b) {
      if (!two(s)) return false;
      std::vector<int64_t> m = l ? std::vector<int64_t>{2 + (s[1] == 2), s[0]} : std::vector<int64_t>{s[1], 2 + (s[0] == 2)};
      os = l ? std::vector<int64_t>{m[0], s[1]} : std::vector<int64_t>{s[0], m[1]};
      b += cst("m" + o, m) + zeros("z" + o, os) + "  %" + o + " = linalg.matmul ins(" + (l ? "%m" + o + ", %" + i + " : " + T(m) + ", " + T(s) : "%" + i + ", %m" + o + " : " + T(s) + ", " + T(m)) + ") outs(%z" + o + " : " + T(os) + ") -> " + T(os) + "\n";
      return true;
    });
  unary("dot", [=](S i, H s, S o, std::vector<int64_t>& os, std::string& b) {
    if (!one(s)) return false;
    os = {};
    b += cst("c" + o, s, 3) + "  %z" + o + " = arith.constant dense<0> : tensor<i32>\n  %d" + o + " = linalg.dot ins(%" + i + ", %c" + o + " : " + T(s) + ", " + T(s) + ") outs(%z" + o + " : tensor<i32>) -> tensor<i32>\n  %" + o + " = tensor.extract %d" + o + "[] : tensor<i32>\n";
    return true;
  });
  unary("flat", [=](S i, H s, S o, std::vector<int64_t>& os, std::string& b) {
    if (!two(s)) return false;
    os = {s[0] * s[1]};
    b += "  %" + o + " = tensor.collapse_shape %" + i + " [[0, 1]] : " + T(s) + " into " + T(os) + "\n";
    return true;
  });
  unary("row", [=](S i, H s, S o, std::vector<int64_t>& os, std::string& b) {
    if (!two(s) || s[0] < 2) return false;
    os = {s[1]};
    b += cat("  %", o, " = tensor.extract_slice %", i, "[1, 0] [1, ", s[1], "] [1, 1] : ", T(s), " to ", T(os), "\n");
    return true;
  });
  unary("pad", [=](S i, H s, S o, std::vector<int64_t>& os, std::string& b) {
    if (!one(s)) return false;
    os = {s[0] + 3};
    b += cat("  %k", o, " = arith.constant 0 : i32\n  %", o, " = tensor.pad %", i, " low[1] high[2] {\n  ^bb0(%i0: index):\n    tensor.yield %k", o, " : i32\n  } : ", T(s), " to ", T(os), "\n");
    return true;
  });
  // a value read inside a loop carried sum
  unary("loop", [=](S i, H s, S o, std::vector<int64_t>& os, std::string& b) {
    if (s.empty()) return false;
    os = s;
    b += "  %" + o + " = affine.for %q" + o + " = 0 to 2 iter_args(%r" + o + " = %" + i + ") -> (" + T(s) + ") {\n    %s" + o + " = arith.addi %r" + o + ", %" + i + " : " + T(s) + "\n    affine.yield %s" + o + " : " + T(s) + "\n  }\n";
    return true;
  });
  int depth = mc::thorough() ? 3 : 2;
  for (auto& start : std::vector<std::vector<int64_t>>{{3}, {4}, {2, 3}, {3, 2}, {2, 2}}) {
    std::function<void(int, std::string, std::vector<int64_t>, std::string, std::string)> rec = [&](int d, std::string cur, std::vector<int64_t> sh, std::string body, std::string id) {
      if (d > 1) {
        Prog p;
        p.shapes = {start};
        p.args = sec("a", start);
        if (body.find("%u ") != std::string::npos) p.args += ", " + sec("u", {3});
        if (body.find("%w ") != std::string::npos) p.args += ", " + sec("w", {2, 3});
        p.res = T(sh);
        p.mayReject = true;
        p.body = body + "  return %" + cur + " : " + T(sh) + "\n";
        each("chain:" + vname(start) + id, p, d == 2 ? std::vector<int>{8, 16, 64} : std::vector<int>{16}, false);
      }
      if (d == depth) return;
      for (auto& s : steps) {
        std::vector<int64_t> os;
        std::string b = body;
        if (sh.empty() && s.name != "sq") continue;
        // the installed MLIR's IntegerRelation::compose crashes on the relations of these two
        if (s.name == "pad" && id.size() >= 4 && id.substr(id.size() - 4) == ":row") continue;
        if (s.emit(cur, sh, cat("v", d), os, b)) rec(d + 1, cat("v", d), os, b, id + ":" + s.name);
      }
    };
    rec(0, "a", start, "", "");
  }
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, linalg::LinalgDialect, memref::MemRefDialect, scf::SCFDialect, tensor::TensorDialect, secret::SecretDialect, tensor_ext::TensorExtDialect, mgmt::MgmtDialect>();
  registerOperandAndResultAttrInterface(reg);
  registerIncreasesMulDepthOpInterface(reg);
  registerPlaintextOperandInterface(reg);
  registerLayoutConversionHoistableInterface(reg);
  registerOperandLayoutRequirementOpInterface(reg);
  Driver d(reg);
  D = &d;
  elementwise();
  matvec();
  dot();
  reduce();
  matmul();
  batchMatmul();
  conv();
  access();
  slices();
  shapesOps();
  chains();
  return mc::finish();
}
