// P20: the rotation indices found by the analysis cover every rotation the program executes.
#include "lib/Dialect/HEIRInterfaces.h"
#include "lib/Dialect/Mgmt/IR/MgmtDialect.h"
#include "lib/Dialect/Secret/IR/SecretDialect.h"
#include "lib/Dialect/Secret/IR/SecretOps.h"
#include "lib/Dialect/Secret/IR/SecretTypes.h"
#include "lib/Dialect/TensorExt/Transforms/Passes.h"
#include "lib/Transforms/ApplyFolders/ApplyFolders.h"
#include "lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.h"
#include "lib/Transforms/LayoutOptimization/InterfaceImpl.h"
#include "lib/Transforms/LayoutPropagation/InterfaceImpl.h"
#include "lib/Transforms/LayoutPropagation/LayoutPropagation.h"
#include "lib/Transforms/Secretize/Passes.h"
#include "lib/Transforms/RotationAnalysis/Passes.h"
#include "ctmc.h"
using namespace pm;
using namespace mlir::heir;

static Driver* D;
static V idx(int64_t v) { return V::scalar(Sc::in(v)); }
static V ten(int64_t n) { std::vector<Sc> d; for (int64_t k = 0; k < n; k++) d.push_back(Sc::fl(k)); return V::tensor({n}, d); }

// The amounts (mod slots, non-zero) of the rotations one run executes.
static bool executed(ModuleOp m, const Vs& in, std::set<int64_t>& got) {
  Outcome o = exec(m, "f", in, [&](interp::Machine& M) {
    ct::setup(M);
    M.watch = [&](Operation* op, const Vs& a, const Vs&) {
      if (!isa<tensor_ext::RotateOp>(op)) return;
      int64_t n = a[0].shape.back(), s = (int64_t)a[1].ix() % n;
      if (s < 0) s += n;
      bool plain = true;
      for (auto& x : a[0].flat()) plain &= x.k == Sc::F && x.f == 1e9;
      if (plain) return;
      if (s) got.insert(s);
    };
  });
  if (o.kind == Outcome::UNSUP) { mc::violate("harness", cat("cannot interpret: ", o.why, "\n", text(m))); return false; }
  return o.kind == Outcome::OK;
}

// must: the analysis has to accept the program.  `lower`: what turns composite operations into rotations.
static void go(const std::string& id, const std::string& body, int64_t n, const std::vector<Vs>& ins, bool must, const std::string& args = "", const std::function<void(OpPassManager&)>& lower = nullptr) {
  std::string fam = id.substr(0, id.find(':'));
  mc::doing(fam);
  mc::guarded([&] {
    std::string t = cat("tensor<", n, "xf32>");
    std::string prog = "module attributes {scheme.actual_slot_count = " + cat(n) + " : i64} {\nfunc.func @f(%a: " + t + ", %n: index" + args + ") -> " + t + " {\n  %c0 = arith.constant 0 : index\n  %c1 = arith.constant 1 : index\n  %c2 = arith.constant 2 : index\n  %c3 = arith.constant 3 : index\n  %m2 = arith.constant -2 : index\n" + body + "}\n}";
    auto m = D->need(prog);
    if (!m) return;
    mc::state();
    OwningOpRef<ModuleOp> an(m->clone());
    if (!D->run(*an, [](OpPassManager& p) { p.addPass(createRotationAnalysisPass()); })) {
      if (must) mc::violate(fam + ":rejects", cat(id, ": the analysis fails: ", D->diag, "\n", prog));
      else mc::count("rejected");
      mc::outcome("rejected");
      return;
    }
    auto attr = (*an)->getAttrOfType<DenseI64ArrayAttr>("rotation_analysis.indices");
    if (!attr) { mc::violate(fam + ":attr", cat(id, ": no indices\n", prog)); return; }
    std::set<int64_t> have;
    for (auto v : attr.asArrayRef()) have.insert(((v % n) + n) % n);
    std::vector<OwningOpRef<ModuleOp>> runs;
    runs.push_back(OwningOpRef<ModuleOp>(m->clone()));
    if (lower) {
      if (!D->run(*runs[0], lower)) { mc::violate(fam + ":lower", cat(id, ": ", D->diag, "\n", prog)); return; }
    }
    // The installed MLIR's constant propagation goes wrong when folding yields a value that is no operand, as in (i + k) - i.
    OwningOpRef<ModuleOp> sccp;
    if (!lower) {
      sccp = OwningOpRef<ModuleOp>(m->clone());
      if (!D->run(*sccp, [](OpPassManager& p) { p.addPass(createSCCPPass()); })) return;
    }
    for (auto& in : ins) {
      std::set<int64_t> got;
      mc::trace();
      mc::eval();
      if (sccp) {
        std::set<int64_t> a, b;
        if (executed(*m, in, a) && executed(*sccp, in, b) && a != b) { mc::count("miscompiled by the installed constant propagation"); return; }
      }
      if (!executed(*runs[0], in, got)) { mc::count("undefined inputs skipped"); continue; }
      for (auto g : got)
        if (!have.count(g)) {
          mc::violate(fam, cat(id, " on n=", in[1].str(), ": executes a rotation by ", g, " but the analysis reports only ", text(*an).substr(0, 200), "\nprogram:\n", prog));
          return;
        }
      mc::outcome(cat(fam, [&] { std::string s; for (auto g : got) s += cat(g, ","); return s; }()));
    }
  });
}
static std::vector<Vs> inputs(int64_t n) { std::vector<Vs> r; for (int64_t k = 0; k < 4; k++) r.push_back({ten(n), idx(k)}); return r; }

struct Ex { std::string ops, name, res; bool sup; };
// Scalar expressions over the leaves: `ops` computes %res.
static std::vector<Ex> exprs(std::vector<std::pair<std::string, bool>> leaves, int depth, const std::string& pre) {
  std::vector<Ex> r;
  for (auto& [l, s] : leaves) r.push_back({"", l, l, s});
  std::vector<Ex> base = r;
  int cnt = 0;
  for (int d = 0; d < depth; d++) {
    std::vector<Ex> cur = r;
    size_t lim = d == 0 ? base.size() : cur.size();
    for (size_t x = d == 0 ? 0 : base.size(); x < lim; x++)
      for (size_t y = 0; y < base.size(); y++)
        for (std::string op : {"addi", "subi", "muli", "divsi", "divui", "remsi", "remui", "ceildivsi", "floordivsi", "minsi", "maxsi", "xori", "shli"}) {
          if (d && (op == "xori" || op == "shli" || op == "divui" || op == "ceildivsi" || op == "maxsi")) continue;
          for (int flip = 0; flip < (d ? 2 : 1); flip++) {
            const Ex &a = flip ? base[y] : cur[x], &b = flip ? cur[x] : base[y];
            if (op == "divui" && (a.res == "m2" || b.res == "m2")) continue;  // amounts beyond 2^31 are not modelled
            std::string v = cat(pre, cnt++);
            bool sup = a.sup && b.sup && (op == "addi" || op == "subi" || op == "muli" || (op == "divsi" && b.ops.empty() && b.res[0] == 'c'));
            r.push_back({a.ops + b.ops + "    %" + v + " = arith." + op + " %" + a.res + ", %" + b.res + " : index\n", "(" + a.name + " " + op + " " + b.name + ")", v, sup});
          }
        }
  }
  return r;
}
struct Loop { int64_t lo, hi, st; };
static std::vector<Loop> loops() { return {{0, 3, 1}, {1, 6, 2}, {-2, 2, 1}, {3, 3, 1}, {0, 1, 1}}; }

static void shifts() {
  int64_t n = 7;
  std::string t = "tensor<7xf32>";
  for (auto& L : loops())
    for (auto& e : exprs({{"i", true}, {"k", true}, {"c2", true}, {"m2", true}, {"n", false}}, mc::thorough() || L.lo == -2 ? 2 : 1, "e"))
      for (std::string upd : {"arith.addi %k, %c2", "arith.muli %k, %i", "arith.remui %k, %c2", "arith.addi %k, %n"})
        for (int acc = 0; acc < 2; acc++) {
          bool ksup = upd.find("remui") == std::string::npos && upd.find("%n") == std::string::npos;
          bool usesk = e.name.find('k') != std::string::npos;
          if (!usesk && upd != "arith.addi %k, %c2") continue;
          if (acc && e.name.size() > 12) continue;
          std::string id = cat("shift:", L.lo, "_", L.hi, "_", L.st, ":", e.name, ":", upd.substr(6), ":", acc);
          if (!mc::mine() || !mc::begin(id)) continue;
          std::string b = cat("  %lo = arith.constant ", L.lo, " : index\n  %hi = arith.constant ", L.hi, " : index\n  %st = arith.constant ", L.st, " : index\n");
          b += "  %r:2 = scf.for %i = %lo to %hi step %st iter_args(%x = %a, %k = %c1) -> (" + t + ", index) {\n" + e.ops;
          b += "    %y = tensor_ext.rotate %" + std::string(acc ? "x" : "a") + ", %" + e.res + " : " + t + ", index\n    %z = arith.addf %x, %y : " + t + "\n    %k2 = " + upd + " : index\n    scf.yield %z, %k2 : " + t + ", index\n  }\n  return %r#0 : " + t + "\n";
          go(id, b, n, inputs(n), e.sup && (!usesk || ksup));
        }
}

// Rotations and shifts that depend on conditions.
static void conditions() {
  int64_t n = 7;
  std::string t = "tensor<7xf32>";
  for (auto& L : loops())
    for (std::string pred : {"slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge", "eq", "ne"})
      for (std::string l : {"i", "k", "n", "j"})
        for (std::string rr : {"c1", "m2", "i"})
          for (int form = 0; form < 6; form++) {
            std::string id = cat("cond:", L.lo, "_", L.hi, "_", L.st, ":", pred, l, rr, ":", form);
            if (!mc::mine() || !mc::begin(id)) continue;
            std::string b = cat("  %lo = arith.constant ", L.lo, " : index\n  %hi = arith.constant ", L.hi, " : index\n  %st = arith.constant ", L.st, " : index\n");
            b += "  %r:2 = scf.for %i = %lo to %hi step %st iter_args(%x = %a, %k = %c0) -> (" + t + ", index) {\n    %j = arith.remsi %i, %c2 : index\n    %p = arith.cmpi " + pred + ", %" + l + ", %" + rr + " : index\n    %u = arith.addi %k, %c3 : index\n";
            auto rot = [&](const std::string& r, const std::string& by) { return "      %" + r + " = tensor_ext.rotate %x, %" + by + " : " + t + ", index\n"; };
            if (form == 0) b += "    %z = scf.if %p -> (" + t + ") {\n" + rot("y", "i") + "      scf.yield %y : " + t + "\n    } else {\n      scf.yield %x : " + t + "\n    }\n";
            if (form == 1) b += "    %z = scf.if %p -> (" + t + ") {\n" + rot("y", "i") + "      scf.yield %y : " + t + "\n    } else {\n" + rot("y2", "k") + "      scf.yield %y2 : " + t + "\n    }\n";
            if (form == 2) b += "    %q = scf.if %p -> (index) {\n      scf.yield %c3 : index\n    } else {\n      scf.yield %i : index\n    }\n" + rot("z", "q");
            if (form == 3) b += "    %q = arith.select %p, %c3, %i : index\n" + rot("z", "q");
            if (form == 4) b += "    %z = scf.if %p -> (" + t + ") {\n" + rot("y", "c2") + "      scf.yield %y : " + t + "\n    } else {\n" + rot("y2", "c3") + "      scf.yield %y2 : " + t + "\n    }\n";
            if (form == 5) b += "    scf.if %p {\n" + rot("y", "i") + "    }\n" + rot("z", "k");
            b += "    scf.yield %z, %u : " + t + ", index\n  }\n  return %r#0 : " + t + "\n";
            bool must = (l == "i" || l == "k") && pred[0] != 'u' && form != 3 && form != 5;
            go(id, b, n, inputs(n), must || form == 4);
          }
}

// Nested loops, and where the rotated value goes.
static void nests() {
  int64_t n = 7;
  std::string t = "tensor<7xf32>", t2 = "tensor<2x7xf32>";
  for (auto& L : loops())
    for (int inner = 0; inner < 5; inner++)
      for (auto& e : exprs({{"i", true}, {"j", true}, {"w", true}, {"c2", true}}, 1, "e")) {
        if (e.name.find("div") != std::string::npos || e.name.find("xor") != std::string::npos || e.name.find("shl") != std::string::npos) continue;
        for (int use = 0; use < 8; use++) {
          std::string id = cat("nest:", L.lo, "_", L.hi, "_", L.st, ":", inner, ":", e.name, ":", use);
          if (!mc::mine() || !mc::begin(id)) continue;
          std::string b = cat("  %lo = arith.constant ", L.lo, " : index\n  %hi = arith.constant ", L.hi, " : index\n  %st = arith.constant ", L.st, " : index\n  %emp = tensor.empty() : ", t2, "\n  %zf = arith.constant dense<0.0> : ", t2, "\n");
          std::string ub = inner == 0 ? "%c3" : inner == 1 ? "%i" : inner == 2 ? "%n" : inner == 3 ? "%c0" : "%c3";
          std::string head = "  %r:2 = scf.for %i = %lo to %hi step %st iter_args(%x = %a, %w = %c0) -> (" + t + ", index) {\n";
          std::string in = "    %s:2 = scf.for %j = " + std::string(inner == 4 ? "%w" : "%c0") + " to " + ub + " step %c1 iter_args(%v = %x, %g = %w) -> (" + t + ", index) {\n" + e.ops;
          in += "      %y = tensor_ext.rotate %v, %" + e.res + " : " + t + ", index\n";
          std::string res = "%y";
          if (use == 1) res = "%v";                                   // the rotation has no use
          if (use == 2) { in += "      %o = arith.maximumf %y, %v : " + t + "\n"; res = "%o"; }
          if (use == 3) { in += "      %q = tensor.insert_slice %y into %zf[1, 0] [1, 7] [1, 1] : " + t + " into " + t2 + "\n      %o = tensor.extract_slice %q[1, 0] [1, 7] [1, 1] : " + t2 + " to " + t + "\n"; res = "%o"; }
          if (use == 4) { in += "      %q = tensor.extract %y[%c1] : " + t + "\n      %o = tensor.insert %q into %v[%c2] : " + t + "\n"; res = "%o"; }
          if (use == 5) { in += "      %y2 = tensor_ext.rotate %y, %g : " + t + ", index\n      %o = arith.mulf %y2, %y2 : " + t + "\n"; res = "%o"; }
          if (use == 7) { in += "      %f = arith.constant 1.5 : f32\n      %fs = arith.constant dense<1.5> : " + t + "\n      %o = arith.subf %y, %fs : " + t + "\n"; res = "%o"; }
          in += "      %g2 = arith.addi %g, %c1 : index\n      scf.yield " + res + ", %g2 : " + t + ", index\n    }\n";
          std::string out = use == 6 ? "    scf.yield %x, %s#1 : " + t + ", index\n  }\n  return %r#0 : " + t + "\n" : "    scf.yield %s#0, %s#1 : " + t + ", index\n  }\n  %fin = tensor_ext.rotate %r#0, %c3 : " + t + ", index\n  return %fin : " + t + "\n";
          bool must = (inner == 0 || inner == 3) && e.sup && use != 1 && use != 2;
          go(id, b + head + in + out, n, inputs(n), must);
        }
      }
}

// Shifts from tables, loops of other integer types, programs without loops, affine loops, several loops.
static void others() {
  int64_t n = 7;
  std::string t = "tensor<7xf32>";
  for (int form = 0; form < 14; form++)
    for (int64_t p = -3; p <= 9; p++)
      for (int64_t q = 0; q < 4; q++) {
        std::string id = cat("other:", form, ":", p, ":", q), b;
        if (!mc::mine() || !mc::begin(id)) continue;
        bool must = true;
        std::string c = cat("  %p = arith.constant ", p, " : index\n  %q = arith.constant ", q, " : index\n");
        auto loop = [&](const std::string& pre, const std::string& sh, const std::string& ty = "index") { return "  %r = scf.for %i = %c0 to %c3 step %c1 iter_args(%x = %a) -> (" + t + ") {\n" + pre + "    %yy = tensor_ext.rotate %x, %" + sh + " : " + t + ", " + ty + "\n    scf.yield %yy : " + t + "\n  }\n  return %r : " + t + "\n"; };
        std::string ret = "  return %y : " + t + "\n";
        switch (form) {
          case 0: b = c + "  %y = tensor_ext.rotate %a, %p : " + t + ", index\n" + ret; break;
          case 1: b = c + "  %s = arith.addi %p, %q : index\n  %s2 = arith.muli %s, %c3 : index\n  %y = tensor_ext.rotate %a, %s2 : " + t + ", index\n" + ret; break;
          case 2: b = c + "  %s = arith.addi %p, %n : index\n  %y = tensor_ext.rotate %a, %s : " + t + ", index\n" + ret; must = false; break;
          case 3: b = c + "  %tab = arith.constant dense<[" + cat(p, ", ", q, ", ", p + q) + "]> : tensor<3xindex>\n" + loop("    %s = tensor.extract %tab[%i] : tensor<3xindex>\n", "s"); break;
          case 4: b = c + "  %tab = arith.constant dense<[[" + cat(p, "], [", q, "], [", p + q) + "]]> : tensor<3x1xindex>\n" + loop("    %s = tensor.extract %tab[%i, %c0] : tensor<3x1xindex>\n", "s"); must = false; break;
          case 5: b = c + "  %tab0 = arith.constant dense<0> : tensor<3xindex>\n  %tab = tensor.insert %p into %tab0[%c1] : tensor<3xindex>\n" + loop("    %s = tensor.extract %tab[%i] : tensor<3xindex>\n", "s"); must = false; break;
          case 6: b = c + loop("    %w = arith.index_cast %i : index to i32\n    %cp = arith.constant " + cat(p) + " : i32\n    %s = arith.muli %w, %cp : i32\n", "s", "i32"); must = false; break;
          case 7: b = c + "  %l32 = arith.constant " + cat(p) + " : i32\n  %h32 = arith.constant " + cat(p + q) + " : i32\n  %s32 = arith.constant 1 : i32\n  %y = scf.for %i = %l32 to %h32 step %s32 iter_args(%x = %a) -> (" + t + ") : i32 {\n    %y = tensor_ext.rotate %x, %i : " + t + ", i32\n    scf.yield %y : " + t + "\n  }\n" + ret; break;
          case 8: b = c + "  %y = affine.for %i = 0 to " + cat(q) + " iter_args(%x = %a) -> (" + t + ") {\n    %s = affine.apply affine_map<(d0) -> (d0 + " + cat(p) + ")>(%i)\n    %y = tensor_ext.rotate %x, %s : " + t + ", index\n    affine.yield %y : " + t + "\n  }\n" + ret; must = false; break;
          case 9: b = c + "  %y = affine.for %i = 0 to " + cat(q) + " iter_args(%x = %a) -> (" + t + ") {\n    %y = scf.for %j = %c0 to %c3 step %c1 iter_args(%v = %x) -> (" + t + ") {\n      %s = arith.addi %i, %j : index\n      %s2 = arith.addi %s, %p : index\n      %y = tensor_ext.rotate %v, %s2 : " + t + ", index\n      scf.yield %y : " + t + "\n    }\n    affine.yield %y : " + t + "\n  }\n" + ret; must = false; break;
          case 10: b = c + "  %r:2 = scf.for %i = %c0 to %q step %c1 iter_args(%x = %a, %k = %p) -> (" + t + ", index) {\n    %y = tensor_ext.rotate %x, %k : " + t + ", index\n    %k2 = arith.addi %k, %c2 : index\n    scf.yield %y, %k2 : " + t + ", index\n  }\n  %y = scf.for %i = %c0 to %q step %c1 iter_args(%x = %r#0) -> (" + t + ") {\n    %s = arith.addi %r#1, %i : index\n    %y = tensor_ext.rotate %x, %s : " + t + ", index\n    scf.yield %y : " + t + "\n  }\n" + ret; must = false; break;
          case 11: b = c + "  %y = scf.for %i = %c0 to %n step %c1 iter_args(%x = %a) -> (" + t + ") {\n    %y = tensor_ext.rotate %x, %i : " + t + ", index\n    scf.yield %y : " + t + "\n  }\n" + ret; must = false; break;
          case 12: b = c + "  scf.for %i = %c0 to %q step %c1 {\n    %s = arith.addi %i, %p : index\n    %y = tensor_ext.rotate %a, %s : " + t + ", index\n  }\n  return %a : " + t + "\n"; must = false; break;
          case 13: b = c + "  %cond = arith.cmpi slt, %n, %c2 : index\n  %y = scf.if %cond -> (" + t + ") {\n    %s = arith.addi %p, %q : index\n    %y = tensor_ext.rotate %a, %s : " + t + ", index\n    scf.yield %y : " + t + "\n  } else {\n    %y = scf.for %i = %c0 to %q step %c1 iter_args(%x = %a) -> (" + t + ") {\n      %y = tensor_ext.rotate %x, %i : " + t + ", index\n      scf.yield %y : " + t + "\n    }\n    scf.yield %y : " + t + "\n  }\n" + ret; break;
        }
        go(id, b, n, inputs(n), must);
      }
}

// Composite operations: what the lowering executes is what the operation declares.
static void composite() {
  int64_t N = mc::thorough() ? 20 : 12;
  for (int64_t n = 1; n <= N; n++)
    for (int64_t period = 1; period <= n; period++)
      for (int64_t steps = 1; steps <= n; steps++)
        for (int pt = 0; pt < 2; pt++)
          for (int unroll = 0; unroll < 2; unroll++)
            for (int loop = 0; loop < 2; loop++) {
              std::string id = cat("composite:", n, ":", period, ":", steps, ":", pt, ":", unroll, ":", loop);
              if (!mc::mine() || !mc::begin(id)) continue;
              std::string t = cat("tensor<", n, "xf32>"), ps = cat("tensor<", steps, "x", n, "xf32>");
              std::string op = "\"tensor_ext.rotate_and_reduce\"(%x" + std::string(pt ? ", %p" : "") + ") {period = " + cat(period) + " : index, steps = " + cat(steps) + " : index, reduceOp = \"arith.addf\"} : (" + t + (pt ? ", " + ps : "") + ") -> " + t + "\n";
              std::string b = loop ? "  %r = scf.for %i = %c0 to %c2 step %c1 iter_args(%x = %a) -> (" + t + ") {\n    %y = " + op + "    scf.yield %y : " + t + "\n  }\n  return %r : " + t + "\n"
                                   : "  %x = arith.addf %a, %a : " + t + "\n  %y = " + op + "  return %y : " + t + "\n";
              std::vector<Sc> pd((size_t)(steps * n), Sc::fl(1e9));  // plaintexts: rotating them needs no key
              go(id, b, n, {{ten(n), idx(0), V::tensor({steps, n}, pd)}}, true, ", %p: " + ps, [&](OpPassManager& p) { tensor_ext::ImplementRotateAndReduceOptions o; o.unroll = unroll; p.addPass(tensor_ext::createImplementRotateAndReduce(o)); });
            }
}

// The rolled and unrolled kernels of the compiler itself: the analysis accepts them and covers them.
static void kernels() {
  struct P { std::string name, args, res, body; };
  std::vector<P> ps;
  auto T = [](std::vector<int64_t> s) { return "tensor<" + mc::join(s, "x") + "xf32>"; };
  auto dense = [&](std::vector<int64_t> s, int base) {
    int k = base;
    std::function<std::string(size_t)> rec = [&](size_t d) -> std::string { if (d == s.size()) return cat(k++, ".0"); std::string r = "["; for (int64_t i = 0; i < s[d]; i++) r += (i ? ", " : "") + rec(d + 1); return r + "]"; };
    return "arith.constant dense<" + rec(0) + "> : " + T(s);
  };
  int64_t N = mc::thorough() ? 8 : 5;
  for (int64_t r = 1; r <= N; r++)
    for (int64_t c = 1; c <= N; c++) {
      ps.push_back({cat("matvec", r, "x", c), "%v: " + T({c}) + " {secret.secret}", T({r}), "  %m = " + dense({r, c}, 2) + "\n  %z = " + dense({r}, 1) + "\n  %0 = linalg.matvec ins(%m, %v : " + T({r, c}) + ", " + T({c}) + ") outs(%z : " + T({r}) + ") -> " + T({r}) + "\n  return %0 : " + T({r}) + "\n"});
      if (r <= 3 && c <= 3) ps.push_back({cat("conv", r, "x", c), "%v: " + T({4, 4}) + " {secret.secret}", T({5 - r, 5 - c}), "  %m = " + dense({r, c}, 2) + "\n  %z = " + dense({5 - r, 5 - c}, 1) + "\n  %0 = linalg.conv_2d ins(%v, %m : " + T({4, 4}) + ", " + T({r, c}) + ") outs(%z : " + T({5 - r, 5 - c}) + ") -> " + T({5 - r, 5 - c}) + "\n  return %0 : " + T({5 - r, 5 - c}) + "\n"});
      if (r <= 3 && c <= 3) for (int64_t q = 1; q <= 3; q++) ps.push_back({cat("matmul", r, "x", c, "x", q), "%v: " + T({r, c}) + " {secret.secret}", T({r, q}), "  %m = " + dense({c, q}, 2) + "\n  %z = " + dense({r, q}, 1) + "\n  %0 = linalg.matmul ins(%v, %m : " + T({r, c}) + ", " + T({c, q}) + ") outs(%z : " + T({r, q}) + ") -> " + T({r, q}) + "\n  return %0 : " + T({r, q}) + "\n"});
      ps.push_back({cat("reduce", r, "x", c), "%v: " + T({r, c}) + " {secret.secret}", T({r}), "  %z = " + dense({r}, 1) + "\n  %0 = linalg.reduce { arith.addf } ins(%v : " + T({r, c}) + ") outs(%z : " + T({r}) + ") dimensions = [1]\n  return %0 : " + T({r}) + "\n"});
    }
  for (auto& p : ps)
    for (int slots : {16, 32})
      for (int unroll = 0; unroll < 2; unroll++) {
        std::string id = cat("kernel:", p.name, ":", slots, ":", unroll);
        if (!mc::mine() || !mc::begin(id)) continue;
        mc::doing("kernel");
        mc::guarded([&] {
          std::string prog = "module attributes {scheme.actual_slot_count = " + cat(slots) + " : i64} {\nfunc.func @f(" + p.args + ") -> " + p.res + " {\n" + p.body + "}\n}";
          auto m = D->need(prog);
          if (!m) return;
          mc::state();
          if (!D->run(*m, [&](OpPassManager& pm) {
                pm.addPass(createWrapGeneric()); pm.addPass(createCanonicalizerPass()); pm.addPass(createCSEPass());
                LayoutPropagationOptions lp; lp.minSlotCount = slots; pm.addPass(createLayoutPropagation(lp));
                ConvertToCiphertextSemanticsOptions c; c.minSlotCount = slots; c.unrollKernels = unroll; pm.addPass(createConvertToCiphertextSemantics(c));
                pm.addPass(createApplyFolders()); pm.addPass(createCanonicalizerPass());
                tensor_ext::ImplementRotateAndReduceOptions rr; rr.unroll = unroll; pm.addPass(tensor_ext::createImplementRotateAndReduce(rr));
                pm.addPass(tensor_ext::createImplementShiftNetwork()); pm.addPass(createCanonicalizerPass()); pm.addPass(createCSEPass()); })) { mc::count("kernels not lowered"); return; }
          OwningOpRef<ModuleOp> an(m->clone());
          if (!D->run(*an, [](OpPassManager& q) { q.addPass(createRotationAnalysisPass()); })) { mc::violate("kernel:rejects", cat(id, ": the analysis fails: ", D->diag, "\n", text(*m))); return; }
          auto attr = (*an)->getAttrOfType<DenseI64ArrayAttr>("rotation_analysis.indices");
          std::set<int64_t> have, got;
          for (auto v : attr.asArrayRef()) have.insert(((v % slots) + slots) % slots);
          auto f = m->lookupSymbol<func::FuncOp>("f");
          Type t = f.getArgumentTypes()[0];
          if (auto st = dyn_cast<secret::SecretType>(t)) t = st.getValueType();
          auto rt = cast<RankedTensorType>(t);
          Vs in{V::tensor(rt.getShape().vec(), std::vector<Sc>(rt.getNumElements(), Sc::fl(1)))};
          mc::trace();
          mc::eval();
          // rotations of cleartext need no key
          Outcome o = exec(*m, "f", in, [&](interp::Machine& M) {
            ct::setup(M);
            M.watch = [&](Operation* op, const Vs& a, const Vs&) {
              if (!isa<tensor_ext::RotateOp>(op) || !op->getParentOfType<secret::GenericOp>()) return;
              int64_t n = a[0].shape.back(), k = (((int64_t)a[1].ix() % n) + n) % n;
              if (k) got.insert(k);
            };
          });
          if (o.kind != Outcome::OK) { mc::violate("kernel:harness", cat(id, ": ", o.why, "\n", text(*m))); return; }
          for (auto g : got) if (!have.count(g)) { mc::violate("kernel", cat(id, ": executes a rotation by ", g, " but the analysis reports only ", text(*an).substr(0, 300), "\n", text(*m))); return; }
          mc::outcome(cat("kernel", p.name, [&] { std::string s; for (auto g : got) s += cat(g, ","); return s; }()));
        });
      }
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, linalg::LinalgDialect, memref::MemRefDialect, scf::SCFDialect, tensor::TensorDialect, secret::SecretDialect, tensor_ext::TensorExtDialect, mgmt::MgmtDialect>();
  registerOperandAndResultAttrInterface(reg);
  registerIncreasesMulDepthOpInterface(reg);
  registerPlaintextOperandInterface(reg);
  registerLayoutConversionHoistableInterface(reg);
  registerOperandLayoutRequirementOpInterface(reg);
  Driver d(reg);
  D = &d;
  shifts();
  conditions();
  nests();
  others();
  composite();
  kernels();
  return mc::finish();
}
