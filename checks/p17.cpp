// P17: secret.generic transformations: every IR reachable by a sequence of passes computes what the plain program computes.
#include <unordered_set>
#include "lib/Dialect/Debug/IR/DebugDialect.h"
#include "lib/Dialect/HEIRInterfaces.h"
#include "lib/Dialect/Mgmt/IR/MgmtDialect.h"
#include "lib/Dialect/Secret/IR/SecretDialect.h"
#include "lib/Dialect/Secret/IR/SecretOps.h"
#include "lib/Dialect/Secret/IR/SecretPatterns.h"
#include "lib/Dialect/Secret/IR/SecretTypes.h"
#include "lib/Dialect/Secret/Transforms/Passes.h"
#include "lib/Transforms/Secretize/Passes.h"
#include "mlir/Transforms/GreedyPatternRewriteDriver.h"
#include "mlir/Transforms/WalkPatternRewriteDriver.h"
#include "passmc.h"
using namespace pm;
using namespace mlir::heir;

static std::string key(const std::string& id) { return id.substr(0, id.find(':')); }
static V i32(int64_t v) { return V::scalar(Sc::in(v)); }

struct Patterns : PassWrapper<Patterns, OperationPass<>> {
  std::function<void(RewritePatternSet&)> f;
  Patterns(std::function<void(RewritePatternSet&)> f) : f(std::move(f)) {}
  Patterns(const Patterns& o) : PassWrapper(o), f(o.f) {}
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(Patterns)
  void runOnOperation() override {
    RewritePatternSet p(&getContext());
    f(p);
    (void)applyPatternsGreedily(getOperation(), std::move(p));
  }
};

struct Step { std::string name; std::function<void(OpPassManager&)> add; bool last = false; };

static bool hasSecret(Operation* root) {
  bool r = false;
  root->walk([&](Operation* o) {
    if (o->getName().getDialectNamespace() == "secret") r = true;
    for (auto t : o->getResultTypes()) r |= isa<secret::SecretType>(t);
    for (auto t : o->getOperandTypes()) r |= isa<secret::SecretType>(t);
    for (auto& reg : o->getRegions()) for (auto& b : reg) for (auto t : b.getArgumentTypes()) r |= isa<secret::SecretType>(t);
    if (auto f = dyn_cast<func::FuncOp>(o)) {
      for (auto t : f.getArgumentTypes()) r |= isa<secret::SecretType>(t);
      for (auto t : f.getResultTypes()) r |= isa<secret::SecretType>(t);
    }
  });
  return r;
}

static Driver* D;
static std::vector<Step> steps;

static bool same(ModuleOp before, ModuleOp after, const std::vector<Vs>& inputs, const std::string& prog, const std::string& path, const std::string& what) {
  auto setup = [](interp::Machine& M) { M.ext = [](interp::Machine& m, Operation* o, const Vs&, Vs&) {
    if (auto f = dyn_cast<func::FuncOp>(o)) { if (f.getName().starts_with("__heir_debug")) { m.effects.pop_back(); return true; } }
    return false; }; };
  for (auto& in : inputs) {
    Outcome a = exec(before, "f", in, setup);
    if (a.kind == Outcome::UNSUP) { mc::violate(what + ":harness", cat("the harness cannot interpret its own program: ", a.why, "\n", prog)); return false; }
    if (a.kind == Outcome::UNDEF) continue;
    Outcome b = exec(after, "f", in, setup);
    mc::eval();
    std::string w = differs(a, b);
    if (!w.empty()) { mc::violate(what, cat(mc::S().cur, " after ", path, " on ", show(in), ": ", w, "\nprogram:\n", prog, "\nafter:\n", text(after))); return false; }
    mc::outcome(show(a.vals));
  }
  return true;
}

// Explore all states reachable by at most `depth` passes.
static void explore(const std::string& prog, const std::vector<Vs>& inputs, int depth, const std::string& fam, int reveals = 0) {
  auto before = D->need(prog);
  if (!before) return;
  std::unordered_set<std::string> seen;
  struct N { OwningOpRef<ModuleOp> m; std::string path, last; };
  std::vector<N> front;
  OwningOpRef<ModuleOp> w(before->clone());
  if (!D->run(*w, [](OpPassManager& p) { p.addPass(createWrapGeneric()); }) || failed(verify(*w))) { mc::violate(fam + "/wrap:invalid", cat("wrap-generic fails on ", prog, D->diag)); return; }
  if (!same(*before, *w, inputs, prog, "wrap", fam + "/wrap")) return;
  seen.insert(text(*w));
  front.push_back({std::move(w), "wrap", "wrap"});
  for (int dep = 0; dep <= depth; dep++) {
    std::vector<N> next;
    for (auto& n : front) {
      {  // dropping secrecy anywhere gives the plain program back
        OwningOpRef<ModuleOp> c(n.m->clone());
        mc::trace();
        if (!D->run(*c, [](OpPassManager& p) { p.addPass(secret::createSecretForgetSecrets()); }) || failed(verify(*c))) {
          mc::violate(fam + "/forget:fails", cat(mc::S().cur, " after ", n.path, ": ", D->diag, "\n", prog, "\n", text(*n.m)));
          continue;
        }
        if (hasSecret(*c)) mc::violate(fam + "/forget:secrets left", cat(mc::S().cur, " after ", n.path, "\n", text(*c)));
        if (!same(*before, *c, inputs, prog, n.path + ",forget", fam + "/forget")) continue;
      }
      if (dep == depth) continue;
      for (auto& s : steps) {
        OwningOpRef<ModuleOp> c(n.m->clone());
        mc::step();
        std::string what = fam + "/" + s.name;
        if (!D->run(*c, s.add) || failed(verify(*c))) {
          mc::violate(what + ":fails", cat(mc::S().cur, " after ", n.path, ",", s.name, ": ", D->diag, "\n", prog, "\nbefore this pass:\n", text(*n.m)));
          continue;
        }
        std::string t = text(*c);
        if (!seen.insert(t).second) continue;
        mc::state();
        if (count(*c, "secret.reveal") != reveals) { mc::violate(what + ":reveal", cat(mc::S().cur, " after ", n.path, ",", s.name, ": the program reveals more than before\n", t)); continue; }
        if (!same(*before, *c, inputs, prog, n.path + "," + s.name, what)) continue;
        if (!s.last) next.push_back({std::move(c), n.path + "," + s.name, s.name});
      }
    }
    front = std::move(next);
  }
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, memref::MemRefDialect, secret::SecretDialect, mgmt::MgmtDialect, debug::DebugDialect>();
  registerOperandAndResultAttrInterface(reg);
  registerIncreasesMulDepthOpInterface(reg);
  registerPlaintextOperandInterface(reg);
  Driver d(reg);
  D = &d;

  auto pat = [](std::function<void(RewritePatternSet&)> f) { return [f](OpPassManager& p) { p.addPass(std::make_unique<Patterns>(f)); }; };
  auto dist = [](std::vector<std::string> ops) { return [ops](OpPassManager& p) { secret::SecretDistributeGenericOptions o; for (auto& s : ops) o.opsToDistribute.push_back(s); p.addPass(secret::createSecretDistributeGeneric(o)); }; };
  std::vector<std::string> loops = {"affine.for", "scf.for", "scf.if", "affine.if"};
  std::vector<Step> all = {
      {"canonicalize", [](OpPassManager& p) { p.addPass(createCanonicalizerPass()); }},
      {"cse", [](OpPassManager& p) { p.addPass(createCSEPass()); }},
      {"distribute", dist({})},
      {"distribute-sub", dist({"arith.subi"})},
      {"distribute-regions", dist(loops)},
      {"merge", [](OpPassManager& p) { p.addPass(secret::createSecretMergeAdjacentGenerics()); }},
      {"capture", [](OpPassManager& p) { p.addPass(secret::createSecretCaptureGenericAmbientScope()); }},
      {"absorb-constants", [](OpPassManager& p) { p.addPass(secret::createSecretGenericAbsorbConstants()); }},
      {"absorb-dealloc", [](OpPassManager& p) { p.addPass(secret::createSecretGenericAbsorbDealloc()); }},
      {"yield-stored", pat([](RewritePatternSet& p) { p.add<secret::YieldStoredMemrefs>(p.getContext()); })},
      {"hoist-before", pat([](RewritePatternSet& p) { p.add<secret::HoistOpBeforeGeneric>(p.getContext(), std::vector<std::string>{"arith.subi", "tensor.insert", "tensor.extract", "memref.load"}); })},
      {"hoist-after", pat([](RewritePatternSet& p) { p.add<secret::HoistOpAfterGeneric>(p.getContext(), std::vector<std::string>{"arith.subi", "tensor.insert", "tensor.extract"}); })},
      {"extract-body", [](OpPassManager& p) { p.addPass(secret::createSecretCaptureGenericAmbientScope()); p.addPass(secret::createSecretExtractGenericBody()); }, true},
      {"debug-port", [](OpPassManager& p) { secret::SecretAddDebugPortOptions o; o.insertDebugAfterEveryOp = true; p.addPass(secret::createSecretAddDebugPort(o)); }, true},
  };
  auto use = [&](std::vector<std::string> without) {
    steps.clear();
    for (auto& s : all) if (std::find(without.begin(), without.end(), s.name) == without.end()) steps.push_back(s);
  };
  auto vals = [](int n) { std::vector<Vs> r; for (int v = 0; v < 3; v++) { Vs in; for (int k = 0; k < n; k++) in.push_back(i32((k + 1) * (v == 0 ? 3 : v == 1 ? -7 : 1000) + k * k * 11)); r.push_back(in); } return r; };

  // ---- straight-line programs: %a and %b secret, %p public, %c a constant; n operations, one or two results
  auto straight = [&](int n, int depth, bool mul, int maxRet) {
    std::vector<int64_t> b;
    for (int k = 0; k < n; k++) { b.push_back(4 + k); b.push_back(4 + k); b.push_back(mul ? 2 : 1); }
    mc::product(b, [&](const std::vector<int64_t>& s) {
      for (int k = 0; k < n; k++) if (s[3 * k + 2] == 1 && s[3 * k] > s[3 * k + 1]) return;
      auto nm = [](int64_t v) { return v == 0 ? std::string("%a") : v == 1 ? "%b" : v == 2 ? "%p" : v == 3 ? "%c" : cat("%r", v - 4); };
      for (int r0 = maxRet == 3 ? 0 : 3 + n; r0 < 4 + n; r0++) for (int r1 = maxRet == 1 ? -1 : -1; r1 < (maxRet == 1 ? 0 : 4 + n); r1++) {
        std::string id = cat("line:", n, ":", r0, ":", r1);
        for (auto v : s) id += cat(":", v);
        if (!mc::mine() || !mc::begin(id)) continue;
        std::string p = cat("func.func @f(%a: i32 {secret.secret}, %p: i32, %b: i32 {secret.secret}) -> (i32", r1 < 0 ? "" : ", i32", ") {\n  %c = arith.constant 5 : i32\n");
        for (int k = 0; k < n; k++) p += cat("  %r", k, " = arith.", s[3 * k + 2] ? "muli " : "subi ", nm(s[3 * k]), ", ", nm(s[3 * k + 1]), " : i32\n");
        p += cat("  return ", nm(r0), r1 < 0 ? "" : ", " + nm(r1), " : i32", r1 < 0 ? "" : ", i32", "\n}");
        explore(p, vals(3), depth, "line");
      }
    });
  };
  use({"absorb-dealloc", "yield-stored", "distribute-regions"});
  straight(1, T ? 6 : 4, true, 3);
  straight(2, T ? 4 : 2, false, T ? 3 : 2);
  if (T) straight(3, 1, false, 1);

  // ---- regions.  S secret or public annotations of %a %b (data), bodies over those, loops and branches
  auto prog = [&](const std::string& id, const std::string& args, const std::string& ret, const std::string& body, const std::vector<Vs>& in, int depth) {
    if (!mc::mine() || !mc::begin(id)) return;
    explore(cat("func.func @f(", args, ") -> ", ret, " {\n", body, "}"), in, depth, key(id));
  };
  auto sec = [](bool s) { return s ? " {secret.secret}" : ""; };
  use({"absorb-dealloc", "yield-stored"});
  int dep = T ? 4 : 2;
  for (int m = 1; m < 8; m++) {
    bool sa = m & 1, sb = m & 2, sp = m & 4;
    std::string args = cat("%a: i32", sec(sa), ", %b: i32", sec(sb), ", %q: i1", sec(sp));
    std::vector<Vs> in;
    for (int q = 0; q < 2; q++) for (auto& v : vals(2)) in.push_back({v[0], v[1], V::scalar(Sc::in(q ? -1 : 0))});
    // if: the yielded values range over everything available
    std::vector<std::string> ys = {"%a", "%b", "%c", "%x", "%y"};
    for (auto& y1 : ys) for (auto& y2 : ys) for (int post = 0; post < 3; post++)
      prog(cat("if:", m, ":", y1, ":", y2, ":", post), args, "i32",
           cat("  %c = arith.constant 5 : i32\n  %x = arith.subi %a, %b : i32\n  %r = scf.if %q -> i32 {\n    %y = arith.subi %x, %c : i32\n    scf.yield ", y1, " : i32\n  } else {\n    %y = arith.subi %b, %x : i32\n    scf.yield ", y2, " : i32\n  }\n",
               post == 0 ? "  return %r : i32\n" : post == 1 ? "  %z = arith.subi %r, %a : i32\n  return %z : i32\n" : "  %z = arith.subi %c, %c : i32\n  %z2 = arith.subi %r, %z : i32\n  return %z2 : i32\n"), in, dep);
  }
  // loops with one or two carried values; inits and yields range over secrets, publics, constants, swaps and products
  for (int kind = 0; kind < 2; kind++)
    for (int m = 1; m < 4; m++) {
      bool sa = m & 1, sb = m & 2;
      std::string args = cat("%a: i32", sec(sa), ", %b: i32", sec(sb));
      std::string head = kind ? "  %z0 = arith.constant 0 : index\n  %z1 = arith.constant 1 : index\n  %z3 = arith.constant 3 : index\n" : "";
      std::string loop = kind ? "scf.for %i = %z0 to %z3 step %z1" : "affine.for %i = 0 to 3", yl = kind ? "scf.yield" : "affine.yield";
      std::vector<std::string> inits = {"%a", "%b", "%c", "%w"}, ys = {"%x", "%a", "%c", "%s", "%t"};
      for (auto& i1 : inits) for (auto& y1 : ys)
        prog(cat("loop:", kind, ":", m, ":", i1, ":", y1), args, "i32",
             cat(head, "  %c = arith.constant 5 : i32\n  %w = arith.subi %b, %c : i32\n  %r = ", loop, " iter_args(%x = ", i1, ") -> (i32) {\n    %ii = arith.index_cast %i : index to i32\n    %s = arith.subi %x, %a : i32\n    %t = arith.subi %ii, %x : i32\n    ", yl, " ", y1, " : i32\n  }\n  return %r : i32\n"), vals(2), dep);
      std::vector<std::string> ys2 = {"%x", "%y", "%a", "%s", "%c"};
      for (auto& i1 : inits) for (auto& i2 : inits) for (auto& y1 : ys2) for (auto& y2 : ys2)
        prog(cat("loop2:", kind, ":", m, ":", i1, ":", i2, ":", y1, ":", y2), args, "(i32, i32)",
             cat(head, "  %c = arith.constant 5 : i32\n  %w = arith.subi %b, %c : i32\n  %r:2 = ", loop, " iter_args(%x = ", i1, ", %y = ", i2, ") -> (i32, i32) {\n    %s = arith.subi %y, %b : i32\n    ", yl, " ", y1, ", ", y2, " : i32, i32\n  }\n  %u = arith.subi %r#0, %a : i32\n  return %u, %r#1 : i32, i32\n"), vals(2), T ? 3 : 1);
      // nests: a loop in a loop, a branch in a loop, a loop in a branch
      std::vector<std::string> inner = {
          "    %n = " + std::string(kind ? "scf.for %j = %z0 to %z3 step %z1" : "affine.for %j = 0 to 3") + " iter_args(%v = %x) -> (i32) {\n      %s = arith.subi %v, %a : i32\n      " + yl + " %s : i32\n    }\n",
          "    %n = " + std::string(kind ? "scf.for %j = %z0 to %z3 step %z1" : "affine.for %j = 0 to 3") + " iter_args(%v = %b) -> (i32) {\n      %s = arith.subi %v, %x : i32\n      " + yl + " %s : i32\n    }\n",
          "    %k = arith.constant 1 : index\n    %q = arith.cmpi eq, %i, %k : index\n    %n = scf.if %q -> i32 {\n      %s = arith.subi %x, %a : i32\n      scf.yield %s : i32\n    } else {\n      scf.yield %x : i32\n    }\n",
          "    %n = affine.if affine_set<(d0) : (d0 - 1 >= 0)>(%i) -> i32 {\n      %s = arith.subi %b, %x : i32\n      affine.yield %s : i32\n    } else {\n      affine.yield %x : i32\n    }\n"};
      for (size_t k = 0; k < inner.size() - (kind ? 1 : 0); k++) for (auto& i1 : inits)
        prog(cat("nest:", kind, ":", m, ":", k, ":", i1), args, "i32", cat(head, "  %c = arith.constant 5 : i32\n  %w = arith.subi %b, %c : i32\n  %r = ", loop, " iter_args(%x = ", i1, ") -> (i32) {\n", inner[k], "    ", yl, " %n : i32\n  }\n  return %r : i32\n"), vals(2), T ? 4 : 2);
    }
  // ---- tensors
  for (int m = 1; m < 8; m++) {
    std::string args = cat("%t: tensor<3xi32>", sec(m & 1), ", %a: i32", sec(m & 2), ", %u: tensor<3xi32>", sec(m & 4), ", %i: index");
    std::vector<Vs> in;
    for (int i = 0; i < 3; i++) in.push_back({V::tensor({3}, {Sc::in(7), Sc::in(11), Sc::in(-4)}), i32(100), V::tensor({3}, {Sc::in(1), Sc::in(2), Sc::in(50)}), i32(i)});
    std::vector<std::string> bodies = {
        "  %r = tensor.insert %a into %t[%i] : tensor<3xi32>\n", "  %z = tensor.empty() : tensor<3xi32>\n  %z2 = tensor.insert %a into %z[%k0] : tensor<3xi32>\n  %z3 = tensor.insert %a into %z2[%k1] : tensor<3xi32>\n  %e = tensor.extract %t[%i] : tensor<3xi32>\n  %r = tensor.insert %e into %z3[%k2] : tensor<3xi32>\n",
        "  %e = tensor.extract %t[%i] : tensor<3xi32>\n  %s = arith.subi %e, %a : i32\n  %r = tensor.insert %s into %u[%k1] : tensor<3xi32>\n",
        "  %d = arith.constant dense<[4, 5, 6]> : tensor<3xi32>\n  %s = arith.subi %t, %d : tensor<3xi32>\n  %r = tensor.insert %a into %s[%i] : tensor<3xi32>\n",
        "  %d = arith.constant dense<[4, 5, 6]> : tensor<3xi32>\n  %r = tensor.insert %a into %d[%i] : tensor<3xi32>\n",
        "  %s = arith.subi %t, %u : tensor<3xi32>\n  %r = affine.for %j = 0 to 3 iter_args(%x = %s) -> (tensor<3xi32>) {\n    %e = tensor.extract %x[%j] : tensor<3xi32>\n    %g = arith.subi %e, %a : i32\n    %h = tensor.insert %g into %x[%j] : tensor<3xi32>\n    affine.yield %h : tensor<3xi32>\n  }\n",
        "  %d = arith.constant dense<0> : tensor<3xi32>\n  %r = affine.for %j = 0 to 3 iter_args(%x = %d) -> (tensor<3xi32>) {\n    %e = tensor.extract %t[%j] : tensor<3xi32>\n    %g = arith.subi %e, %a : i32\n    %h = tensor.insert %g into %x[%j] : tensor<3xi32>\n    affine.yield %h : tensor<3xi32>\n  }\n"};
    for (size_t b = 0; b < bodies.size(); b++)
      prog(cat("tensor:", m, ":", b), args, "tensor<3xi32>", "  %k0 = arith.constant 0 : index\n  %k1 = arith.constant 1 : index\n  %k2 = arith.constant 2 : index\n" + bodies[b] + "  return %r : tensor<3xi32>\n", in, T ? 4 : 3);
  }
  // ---- memrefs
  use({});
  for (int m = 1; m < 8; m++) {
    std::string args = cat("%m: memref<3xi32>", sec(m & 1), ", %a: i32", sec(m & 2), ", %b: i32", sec(m & 4), ", %i: index");
    std::vector<Vs> in;
    for (int i = 0; i < 3; i++) in.push_back({V::buffer({3}, {Sc::in(7), Sc::in(11), Sc::in(-4)}), i32(100), i32(9), i32(i)});
    std::vector<std::string> bodies = {
        "  %v = memref.load %m[%i] : memref<3xi32>\n  %r = arith.subi %v, %a : i32\n",
        "  memref.store %a, %m[%i] : memref<3xi32>\n  %v = memref.load %m[%k1] : memref<3xi32>\n  %r = arith.subi %v, %b : i32\n",
        "  %n = memref.alloc() : memref<3xi32>\n  memref.store %a, %n[%k0] : memref<3xi32>\n  memref.store %b, %n[%k1] : memref<3xi32>\n  %v = memref.load %n[%k0] : memref<3xi32>\n  %w = memref.load %n[%k1] : memref<3xi32>\n  memref.dealloc %n : memref<3xi32>\n  %r = arith.subi %v, %w : i32\n",
        "  %n = memref.alloc() : memref<3xi32>\n  affine.for %j = 0 to 3 {\n    %v = affine.load %m[%j] : memref<3xi32>\n    %s = arith.subi %v, %a : i32\n    affine.store %s, %n[%j] : memref<3xi32>\n  }\n  %r = memref.load %n[%i] : memref<3xi32>\n",
        "  affine.for %j = 0 to 2 {\n    %v = affine.load %m[%j + 1] : memref<3xi32>\n    %s = arith.subi %v, %a : i32\n    affine.store %s, %m[%j] : memref<3xi32>\n  }\n  %r = memref.load %m[%i] : memref<3xi32>\n",
        "  %z = affine.for %j = 0 to 3 iter_args(%x = %b) -> (i32) {\n    %v = affine.load %m[2 - %j] : memref<3xi32>\n    %w = affine.load %m[%j] : memref<3xi32>\n    %s = arith.subi %v, %x : i32\n    %s2 = arith.subi %s, %w : i32\n    affine.yield %s2 : i32\n  }\n  %r = arith.subi %z, %a : i32\n",
        "  memref.store %a, %m[%k0] : memref<3xi32>\n  %v = memref.load %m[%i] : memref<3xi32>\n  memref.store %b, %m[%i] : memref<3xi32>\n  %w = memref.load %m[%k0] : memref<3xi32>\n  %r = arith.subi %v, %w : i32\n"};
    for (size_t b = 0; b < bodies.size(); b++)
      prog(cat("memref:", m, ":", b), args, "i32", "  %k0 = arith.constant 0 : index\n  %k1 = arith.constant 1 : index\n" + bodies[b] + "  return %r : i32\n", in, T ? 3 : 2);
  }
  return mc::finish();
}
