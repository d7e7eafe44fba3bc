// P24: arithmetic rewrites (balancing, select and comparison arithmetization, mask folding, function approximation, polynomial lowering).
#include <cmath>
#include "lib/Dialect/Kernel/IR/KernelDialect.h"
#include "lib/Dialect/Kernel/IR/KernelOps.h"
#include "lib/Dialect/MathExt/IR/MathExtDialect.h"
#include "lib/Dialect/ModArith/IR/ModArithDialect.h"
#include "lib/Dialect/Polynomial/IR/PolynomialAttributes.h"
#include "lib/Dialect/Polynomial/IR/PolynomialDialect.h"
#include "lib/Dialect/Polynomial/IR/PolynomialOps.h"
#include "lib/Dialect/Secret/IR/SecretDialect.h"
#include "lib/Dialect/Secret/IR/SecretOps.h"
#include "lib/Dialect/TensorExt/IR/TensorExtDialect.h"
#include "lib/Transforms/ApplyFolders/ApplyFolders.h"
#include "lib/Transforms/CompareToSignRewrite/CompareToSignRewrite.h"
#include "lib/Transforms/FoldPlaintextMasks/FoldPlaintextMasks.h"
#include "lib/Transforms/LowerPolynomialEval/LowerPolynomialEval.h"
#include "lib/Transforms/OperationBalancer/OperationBalancer.h"
#include "lib/Transforms/PolynomialApproximation/PolynomialApproximation.h"
#include "lib/Transforms/SelectRewrite/SelectRewrite.h"
#include "lib/Target/CompilationTarget/CompilationTarget.h"
#include "passmc.h"
using namespace pm;
using namespace mlir::heir;
using Strs = std::vector<std::string>;
using Fn = std::function<double(double)>;

static Driver* D;
static bool T;

static double cheb(const std::vector<double>& c, double x) {  // Clenshaw
  double b1 = 0, b2 = 0;
  for (size_t k = c.size(); k-- > 1;) { double b = c[k] + 2 * x * b1 - b2; b2 = b1; b1 = b; }
  return (c.empty() ? 0 : c[0]) + x * b1 - b2;
}
static double f64of(Operation* o, StringRef n, double dflt) {
  auto a = o->getAttrOfType<FloatAttr>(n);
  return a ? a.getValue().convertToDouble() : dflt;
}
static std::vector<double> doubles(ArrayAttr a) {
  std::vector<double> r;
  for (auto x : a) r.push_back(cast<FloatAttr>(x).getValue().convertToDouble());
  return r;
}
// polynomial.eval, kernel.eval_chebyshev and math_ext operations by their definition.
static void setup(interp::Machine& M) {
  M.ext = [](interp::Machine& m, Operation* o, const Vs& in, Vs& out) {
    auto map = [&](const Fn& f) {
      V r = copyArg(in[0]);
      for (auto& s : *r.d) { if (s.k == Sc::POISON) continue; if (s.k != Sc::F) throw interp::Unsupported("function of a non-float"); s = Sc::fl(f(s.f)); }
      out.push_back(r);
      return true;
    };
    auto n = o->getName().getStringRef();
    if (auto e = dyn_cast<polynomial::EvalOp>(o)) {
      if (auto c = dyn_cast<polynomial::TypedChebyshevPolynomialAttr>(e.getPolynomialAttr())) {
        auto cs = doubles(c.getValue().getCoefficients());
        double lo = f64of(o, "domain_lower", -1), hi = f64of(o, "domain_upper", 1);
        return map([=](double x) { return cheb(cs, 2 * (x - lo) / (hi - lo) - 1); });
      }
      if (auto c = dyn_cast<polynomial::TypedFloatPolynomialAttr>(e.getPolynomialAttr())) {
        std::vector<std::pair<int64_t, double>> ts;
        for (auto& t : c.getValue().getPolynomial().getTerms()) ts.push_back({t.getExponent().getSExtValue(), t.getCoefficient().convertToDouble()});
        return map([=](double x) { double s = 0; for (auto& [e, k] : ts) s += k * std::pow(x, (double)e); return s; });
      }
      return false;
    }
    if (auto k = dyn_cast<kernel::EvalChebyshevOp>(o)) { auto cs = doubles(k.getCoefficients()); return map([=](double x) { return cheb(cs, x); }); }
    if (n == "math_ext.sign") return map([](double x) { return x > 0 ? 1.0 : x < 0 ? -1.0 : 0.0; });
    // Comparison results are converted to i1 as the numbers 0 and 1.
    if (n == "arith.fptosi" && o->getResult(0).getType().isInteger(1)) {
      double x = in[0].sc().f;
      out.push_back(V::scalar(x == 0 ? Sc::in(0) : x == 1 ? Sc::in(-1) : Sc()));
      return true;
    }
    return false;
  };
}

static std::string show1(const std::vector<double>& v) { std::string s; for (double x : v) s += cat(x, " "); return s; }
static V num(const std::string& type, double x) { return type[0] == 'f' ? V::scalar(Sc::fl(x)) : V::scalar(Sc::in((int64_t)x)); }
static V arg(const std::string& type, int64_t n, const std::function<double(int)>& at) {  // scalar, or a tensor of n elements
  if (!n) return num(type, at(0));
  std::vector<Sc> d;
  for (int k = 0; k < n; k++) d.push_back(num(type, at(k)).sc());
  return V::tensor({n}, d);
}

// ---------- operation balancing
struct Node { int kind, l, r; };  // kind 0 add, 1 mul
static std::string balanceProg(const std::vector<Node>& ns, int secrets, int pubs, const std::string& ty, const std::vector<int>& outs, int shape) {
  bool fl = ty.find('f') != std::string::npos;
  std::string add = fl ? "arith.addf" : "arith.addi", mul = fl ? "arith.mulf" : "arith.muli", s = "func.func @f(";
  auto val = [&](int k) { return k < secrets ? cat("%a", k) : k < secrets + pubs ? cat("%p", k - secrets) : cat("%v", k - secrets - pubs); };
  for (int k = 0; k < secrets; k++) s += cat(k ? ", " : "", "%s", k, ": !secret.secret<", ty, ">");
  for (int k = 0; k < pubs; k++) s += cat(", %p", k, ": ", ty);
  s += ") -> (";
  for (size_t k = 0; k < outs.size(); k++) s += cat(k ? ", " : "", "!secret.secret<", ty, ">");
  s += ") {\n";
  // shape 1: the first operation stands outside the generic when it is public; shape 2: the generic sits in a loop body
  size_t from = 0;
  auto line = [&](size_t k) { return cat("  ", val(secrets + pubs + k), " = ", ns[k].kind ? mul : add, " ", val(ns[k].l), ", ", val(ns[k].r), " : ", ty, "\n"); };
  if (shape == 1) while (from < ns.size() && ns[from].l >= secrets && ns[from].r >= secrets) s += line(from++);
  s += "  %r";
  if (outs.size() > 1) s += cat(":", outs.size());
  s += " = secret.generic(";
  for (int k = 0; k < secrets; k++) s += cat(k ? ", " : "", "%s", k, ": !secret.secret<", ty, ">");
  s += ") {\n  ^body(";
  for (int k = 0; k < secrets; k++) s += cat(k ? ", " : "", "%a", k, ": ", ty);
  s += "):\n";
  for (size_t k = from; k < ns.size(); k++) s += line(k);
  s += "  secret.yield ";
  for (size_t k = 0; k < outs.size(); k++) s += cat(k ? ", " : "", val(outs[k]));
  s += " : ";
  for (size_t k = 0; k < outs.size(); k++) s += cat(k ? ", " : "", ty);
  s += "\n  } -> (";
  for (size_t k = 0; k < outs.size(); k++) s += cat(k ? ", " : "", "!secret.secret<", ty, ">");
  s += ")\n  return ";
  for (size_t k = 0; k < outs.size(); k++) s += outs.size() > 1 ? cat(k ? ", " : "", "%r#", k) : "%r";
  s += " : ";
  for (size_t k = 0; k < outs.size(); k++) s += cat(k ? ", " : "", "!secret.secret<", ty, ">");
  return s + "\n}\n";
}
static int depthOf(Value v, std::map<void*, int>& memo) {
  auto* o = v.getDefiningOp();
  if (!o || o->getNumOperands() != 2) return 0;
  auto it = memo.find(v.getAsOpaquePointer());
  if (it != memo.end()) return it->second;
  return memo[v.getAsOpaquePointer()] = 1 + std::max(depthOf(o->getOperand(0), memo), depthOf(o->getOperand(1), memo));
}
static int yieldDepth(ModuleOp m) {
  int d = 0;
  std::map<void*, int> memo;
  m.walk([&](secret::YieldOp y) { for (auto v : y->getOperands()) d = std::max(d, depthOf(v, memo)); });
  return d;
}
static std::vector<Vs> balanceInputs(const std::string& ty, int n) {
  std::vector<Vs> r;
  bool fl = ty.find('f') != std::string::npos;
  static const int64_t P[] = {3, 5, -7, 11, 2, -13, 17, 4, 19}, Q[] = {1, 2, 3, -2, 5, 1, -1, 3, 2};
  for (int w = 0; w < 2; w++) {
    Vs v;
    for (int k = 0; k < n; k++) {
      int64_t x = fl ? (w ? Q[(k * 2 + 1) % 9] : (k % 3) + 1) : w ? 1000 * P[k % 9] + k : P[k % 9];
      std::string e = fl ? "f64" : "i16";
      v.push_back(ty[0] == 't' ? arg(e, 2, [=](int j) { return (double)(j ? x + 1 : x); }) : num(e, (double)x));
    }
    r.push_back(v);
  }
  return r;
}
static std::vector<PassStep> balancing() { return {{"operation-balancer", [](OpPassManager& p) { p.addPass(createOperationBalancer()); }}}; }
static void balanceOne(const std::string& id, const std::vector<Node>& ns, int secrets, int pubs, const std::string& ty, const std::vector<int>& outs, int shape, int wantDepth) {
  if (!mc::mine() || !mc::begin(id)) return;
  Also also = [=](ModuleOp m) { int d = yieldDepth(m); return wantDepth >= 0 && d > wantDepth ? cat("the balanced tree has depth ", d, ", could be ", wantDepth) : std::string(); };
  explore(*D, "balance", balanceProg(ns, secrets, pubs, ty, outs, shape), "f", balancing(), 2, balanceInputs(ty, secrets + pubs), setup, also);
}
static int64_t log2up(int64_t n) { int64_t k = 0; while ((1 << k) < n) k++; return k; }
static void balance() {
  // every DAG of up to N operations over two secrets and one public value
  for (int n = 1; n <= (T ? 4 : 3); n++) {
    std::vector<int64_t> bounds;
    for (int k = 0; k < n; k++) { bounds.push_back(2); bounds.push_back(3 + k); bounds.push_back(3 + k); }
    int64_t seq = 0;
    mc::product(bounds, [&](const std::vector<int64_t>& x) {
      std::vector<Node> ns;
      std::vector<int> uses(3 + n, 0);
      for (int k = 0; k < n; k++) { ns.push_back({(int)x[3 * k], (int)x[3 * k + 1], (int)x[3 * k + 2]}); if (ns[k].l > ns[k].r) return; uses[ns[k].l]++, uses[ns[k].r]++; }
      for (int k = 0; k + 1 < n; k++) if (!uses[3 + k]) return;  // no dead operations
      seq++;
      if (n == 4 && seq % 4) return;
      for (int shape = 0; shape < 2; shape++) {
        if (shape && !(ns[0].l >= 2 && ns[0].r >= 2)) continue;
        balanceOne(cat("balance:dag", n, ":", seq, ":", shape), ns, 2, 1, seq % 3 == 0 ? "tensor<2xi16>" : seq % 3 == 1 ? "i16" : "f64", {3 + n - 1}, shape, -1);
        if (n > 1) balanceOne(cat("balance:dag", n, "b:", seq, ":", shape), ns, 2, 1, "i16", {3 + n - 2, 3 + n - 1}, shape, -1);
      }
    });
  }
  // every binary tree of one kind with distinct leaves: balanced to the least depth; and with every subset of inner nodes re-used
  for (int n = 2; n <= (T ? 7 : 6); n++) {
    int shapes = 0;
    std::function<void(std::vector<int>, std::vector<Node>, int)> build;
    // trees as postfix sequences over n leaves: a stack machine, every order of pushes and reductions
    build = [&](std::vector<int> stack, std::vector<Node> ns, int pushed) {
      if ((int)ns.size() == n - 1) {
        int id = shapes++;
        for (int kind = 0; kind < 2; kind++) {
          auto ks = ns;
          for (auto& q : ks) q.kind = kind;
          balanceOne(cat("balance:tree", n, ":", id, ":", kind), ks, n - 1, 1, kind ? "f64" : "i16", {n + n - 2}, 0, (int)log2up(n));
        }
        for (int sub = 1; sub < (1 << (n - 2)) && n <= (T ? 6 : 5); sub++) {
          std::vector<int> outs{n + n - 2};
          for (int k = 0; k < n - 2; k++) if (sub >> k & 1) outs.push_back(n + k);
          balanceOne(cat("balance:reuse", n, ":", id, ":", sub), ns, n - 1, 1, "i16", outs, 0, -1);
        }
        // one inner node of the other kind
        for (int k = 0; k < n - 1; k++) { auto ks = ns; ks[k].kind = 1; balanceOne(cat("balance:mixed", n, ":", id, ":", k), ks, n - 1, 1, "i16", {n + n - 2}, 0, -1); }
        return;
      }
      if (pushed < n) { auto s = stack; s.push_back(pushed); build(s, ns, pushed + 1); }
      if (stack.size() >= 2) {
        auto s = stack;
        int r = s.back(); s.pop_back();
        int l = s.back(); s.pop_back();
        s.push_back(n + (int)ns.size());
        auto m = ns;
        m.push_back({0, l, r});
        build(s, m, pushed);
      }
    };
    build({}, {}, 0);
  }
}

// ---------- select and comparison
static void selects() {
  std::vector<PassStep> steps = {{"select-rewrite", [](OpPassManager& p) { p.addPass(createSelectRewrite()); }}, {"canonicalize", [](OpPassManager& p) { p.addPass(createCanonicalizerPass()); }}};
  for (std::string e : {"i1", "i8", "i32", "index", "f32", "f64"})
    for (int shaped = 0; shaped < 3; shaped++)  // all scalar, scalar condition, tensor condition
      for (int share = 0; share < 3; share++)   // distinct values, the same value twice, a chain of two selects
      {
        if (!mc::mine() || !mc::begin(cat("select:", e, ":", shaped, ":", share))) continue;
        std::string ty = shaped ? "tensor<2x" + e + ">" : e, ct = shaped == 2 ? "tensor<2xi1>" : "i1", both = shaped == 1 ? cat("i1, ", ty) : ty;
        if (shaped == 2) both = cat("tensor<2xi1>, ", ty);
        std::string body = share == 0 ? cat("%r = arith.select %c, %a, %b : ", both) : share == 1 ? cat("%r = arith.select %c, %a, %a : ", both)
          : cat("%q = arith.select %c, %a, %b : ", both, "\n %r = arith.select %c, %b, %q : ", both);
        std::string prog = cat("func.func @f(%c: ", ct, ", %a: ", ty, ", %b: ", ty, ") -> ", ty, " {\n ", body, "\n return %r : ", ty, "\n}\n");
        std::vector<Vs> in;
        std::vector<double> vals = e == "i1" ? std::vector<double>{0, -1} : e[0] == 'f' ? std::vector<double>{0, 1, -2.5, 1e6} : std::vector<double>{0, 1, -1, 5, -100, 127};
        int64_t nc = shaped == 2 ? 4 : 2;
        for (int64_t c = 0; c < nc; c++) for (double a : vals) for (double b : vals)
          in.push_back({arg("i1", shaped == 2 ? 2 : 0, [=](int k) { return (double)-(c >> k & 1); }), arg(e, shaped ? 2 : 0, [=](int k) { return k ? b : a; }), arg(e, shaped ? 2 : 0, [=](int k) { return k ? a : b; })});
        Also gone = nullptr;
        explore(*D, "select/" + e + (shaped == 1 ? "/mixed" : shaped ? "/shaped" : ""), prog, "f", steps, 2, in, setup, gone);
      }
}
static void compares() {
  std::vector<PassStep> steps = {{"compare-to-sign-rewrite", [](OpPassManager& p) { p.addPass(createCompareToSignRewrite()); }}, {"canonicalize", [](OpPassManager& p) { p.addPass(createCanonicalizerPass()); }}};
  Strs fp = {"false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"};
  Strs ip = {"eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"};
  for (std::string e : {"f32", "f64", "i8", "i32", "i64", "index"})
    for (int n : {0, 2})
      for (auto& p : e[0] == 'f' ? fp : ip)
        for (int side = 0; side < 3; side++) {
          if (!mc::mine() || !mc::begin(cat("compare:", e, ":", n, ":", p, ":", side))) continue;
          std::string ty = n ? cat("tensor<2x", e, ">") : e, rt = n ? "tensor<2xi1>" : "i1";
          std::string c = e[0] == 'f' ? "1.0" : "3", cst = n ? cat("dense<", c, ">") : c;
          std::string ops = side == 0 ? "%a, %b" : side == 1 ? "%a, %c" : "%c, %b";
          std::string prog = cat("func.func @f(%a: ", ty, ", %b: ", ty, ") -> ", rt, " {\n %c = arith.constant ", cst, " : ", ty, "\n %r = arith.cmp", e[0] == 'f' ? "f" : "i", " ", p, ", ", ops, " : ", ty, "\n return %r : ", rt, "\n}\n");
          std::vector<double> vals = e[0] == 'f' ? std::vector<double>{-2.5, -1, 0, 0.5, 1, 3} : std::vector<double>{-100, -1, 0, 1, 3, 4, 100};
          if (p[0] == 'u' && e[0] != 'f') vals = {0, 1, 2, 3, 4, 100, 127};  // unsigned comparisons are documented to be treated as signed ones
          std::vector<Vs> in;
          for (double a : vals) for (double b : vals) in.push_back({arg(e, n, [=](int k) { return k ? b : a; }), arg(e, n, [=](int k) { return k ? a : b; })});
          explore(*D, cat("compare/", e, n ? "/shaped" : "", "/", p), prog, "f", steps, 2, in, setup);
        }
}

// ---------- plaintext masks
static void masks() {
  std::vector<PassStep> steps = {{"fold-plaintext-masks", [](OpPassManager& p) { p.addPass(createFoldPlaintextMasks()); }}, {"canonicalize", [](OpPassManager& p) { p.addPass(createCanonicalizerPass()); }}};
  for (std::string e : {"i1", "i8", "f32", "f64", "index"})
    for (std::string shape : {"2", "1x2", "2x2"}) {
      if (e == "index" && shape != "2") continue;
      int64_t n = shape == "2x2" ? 4 : 2;
      std::string ty = cat("tensor<", shape, "x", e, ">");
      bool fl = e[0] == 'f';
      auto lit = [&](int k) {  // element constants: 0, 1, and two that are not mask values
        return fl ? Strs{"0.0", "1.0", "2.5", "-0.0"}[k] : e == "i1" ? Strs{"false", "true", "true", "false"}[k] : Strs{"0", "1", "3", "-1"}[k];
      };
      auto dense = [&](int code) {  // 2 digits base 4, repeated for longer shapes
        std::string a = lit(code % 4), b = lit(code / 4);
        if (shape == "2") return cat("dense<[", a, ", ", b, "]>");
        if (shape == "1x2") return cat("dense<[[", a, ", ", b, "]]>");
        return cat("dense<[[", a, ", ", b, "], [", b, ", ", a, "]]>");
      };
      std::string mul = fl ? "arith.mulf" : "arith.muli";
      int64_t seq = 0;
      // m1, m2: masks; the two multiplications in every arrangement; second use of the inner product
      mc::product({16, 16, 6, 3}, [&](const std::vector<int64_t>& x) {
        seq++;
        if (shape != "2" && !T && seq % 7) return;
        if (!mc::mine() || !mc::begin(cat("mask:", e, ":", shape, ":", x[0], ":", x[1], ":", x[2], ":", x[3]))) return;
        std::string in, outer;
        switch (x[2]) {
          case 0: in = "%m2, %v"; outer = "%m1, %i"; break;
          case 1: in = "%v, %m2"; outer = "%m1, %i"; break;
          case 2: in = "%m1, %m2"; outer = "%v, %i"; break;
          case 3: in = "%m2, %v"; outer = "%i, %m1"; break;
          case 4: in = "%v, %m2"; outer = "%i, %m1"; break;
          default: in = "%m1, %m2"; outer = "%i, %v"; break;
        }
        std::string last = x[3] == 0 ? "" : x[3] == 1 ? cat(" %z = ", mul, " %o, %i : ", ty, "\n") : cat(" %z = ", mul, " %m2, %o : ", ty, "\n"), r = x[3] ? "%z" : "%o";
        std::string prog = cat("func.func @f(%v: ", ty, ") -> ", ty, " {\n %m1 = arith.constant ", dense((int)x[0]), " : ", ty, "\n %m2 = arith.constant ", dense((int)x[1]), " : ", ty, "\n %i = ", mul, " ", in, " : ", ty, "\n %o = ", mul, " ", outer, " : ", ty, "\n",
                               last, " return ", r, " : ", ty, "\n}\n");
        std::vector<int64_t> dims;
        for (char ch : shape) if (ch != 'x') dims.push_back(ch - '0');
        std::vector<Vs> ins;
        for (int w = 0; w < 2; w++) {
          std::vector<Sc> d;
          for (int k = 0; k < n; k++) d.push_back(num(e, e == "i1" ? -((k + w) % 2) : fl ? (w ? -1.5 - k : 2.25 + k) : (w ? -7 - k : 100 + k)).sc());
          ins.push_back({V::tensor(dims, d)});
        }
        explore(*D, "mask/" + e, prog, "f", steps, 2, ins, setup);
      });
    }
}

// ---------- polynomial evaluation
static std::string PTY = "!polynomial.polynomial<ring=<coefficientType=f64>>";
static std::vector<double> result(ModuleOp m, const V& x, std::string& why) {
  auto o = exec(m, "f", {x}, setup);
  if (o.kind != Outcome::OK) { why = o.why.empty() ? "undefined" : o.why; return {}; }
  std::vector<double> r;
  for (auto& s : o.vals[0].flat()) { if (s.k != Sc::F) { why = "not a float: " + s.str(); return {}; } r.push_back(s.f); }
  return r;
}
struct Types { std::string e; int64_t n; std::string ty() const { return n ? cat("tensor<", n, "x", e, ">") : e; } };
static std::string wrapSecret(const std::string& ty, const std::string& body) {
  return cat("func.func @f(%s: !secret.secret<", ty, ">) -> !secret.secret<", ty, "> {\n %g = secret.generic(%s: !secret.secret<", ty, ">) {\n ^body(%x: ", ty, "):\n", body, "\n secret.yield %r : ", ty, "\n } -> (!secret.secret<", ty, ">)\n return %g : !secret.secret<", ty, ">\n}\n");
}
static std::string wrapPlain(const std::string& ty, const std::string& body) { return cat("func.func @f(%x: ", ty, ") -> ", ty, " {\n", body, "\n return %r : ", ty, "\n}\n"); }

struct Lowering { std::string name; PolynomialApproximationMethod m; };
static void lowerOne(const std::string& id, const std::string& key, const std::string& prog, const Types& t, const Lowering& L, const std::vector<double>& xs, const Fn& want, double scale, bool must) {
  if (!mc::mine() || !mc::begin(id)) return;
  auto m = D->need(prog);
  if (!m) return;
  mc::state();
  std::string what = key + "/" + L.name;
  auto say = [&](const std::string& kind, const std::string& w) { mc::violate(what + kind, cat(id, ": ", w, "\nprogram:\n", prog, "\nafter:\n", text(*m))); };
  if (!D->run(*m, [&](OpPassManager& p) { LowerPolynomialEvalOptions o; o.method = L.m; p.addPass(createLowerPolynomialEval(o)); })) { say(":fails", D->diag); return; }
  if (failed(verify(*m))) { say(":invalid", D->diag); return; }
  if (must && count(*m, "polynomial.eval")) { say(":left", "the polynomial is not lowered"); return; }
  mc::state();
  double tol = (t.e == "f32" ? 1e-5 : 1e-11) * scale;
  for (size_t k = 0; k < xs.size(); k++) {
    std::string why;
    V x = arg(t.e, t.n, [&](int j) { return xs[(k + j) % xs.size()]; });
    auto got = result(*m, x, why);
    mc::trace(); mc::eval();
    if (!why.empty()) { say("", why); return; }
    if ((int64_t)got.size() != (t.n ? t.n : 1)) { say("", "wrong result size"); return; }
    for (size_t j = 0; j < got.size(); j++) {
      double w = want(xs[(k + j) % xs.size()]);
      if (!(std::fabs(got[j] - w) <= tol)) { say("", cat("at ", xs[(k + j) % xs.size()], " gives ", got[j], ", want ", w)); return; }
    }
    mc::outcome(show1(got));
  }
}
static void lowering() {
  std::vector<Types> types = {{"f64", 0}, {"f32", 0}, {"f64", 2}, {"f32", 3}};
  std::vector<Lowering> ls = {{"auto", Automatic}, {"horner", Horner}, {"ps", PatersonStockmeyer}, {"pscheb", PatersonStockmeyerChebyshev}};
  std::vector<double> xs = {-2, -1.5, -1, -0.5, 0, 0.25, 1, 1.75};
  auto mono = [&](const std::string& id, const std::map<int, double>& c) {
    std::string p;
    double scale = 1;
    for (auto& [e, k] : c) {
      char b[40];
      snprintf(b, sizeof b, "%.6f", k);
      p += cat(p.empty() ? "" : " + ", b, e == 0 ? "" : e == 1 ? "x" : cat("x**", e));
      scale += std::fabs(k) * std::pow(2.0, e);
    }
    for (size_t q = 0; q < types.size(); q++) {
      auto& t = types[q];
      for (auto& L : ls) {
        if (L.m == PatersonStockmeyerChebyshev) continue;
        std::string attr = cat("#polynomial.typed_float_polynomial<", p, "> : ", PTY), body = cat(" %r = polynomial.eval ", attr, ", %x : ", t.ty());
        lowerOne(cat("mono:", id, ":", t.ty(), ":", L.name), "mono", q % 2 ? wrapSecret(t.ty(), body) : wrapPlain(t.ty(), body), t, L, xs,
                 [c](double x) { double s = 0; for (auto& [e, k] : c) s += k * std::pow(x, (double)e); return s; }, scale, true);
      }
    }
  };
  static const double C[] = {1, -2, 0.5, 3, 1, -1, 2, -0.25, 1.5, 1, -3, 2, 1, 0.5, -1, 2, 1};
  for (int s = 1; s < (T ? 1024 : 256); s++) { std::map<int, double> c; for (int k = 0; k < 10; k++) if (s >> k & 1) c[k] = C[k]; mono(cat("set", s), c); }
  for (int d = 8; d <= (T ? 40 : 20); d++) {
    std::map<int, double> one{{d, 1.0}}, two{{0, -1.0}, {d, 2.0}}, all, odd;
    for (int k = 0; k <= d; k++) { all[k] = C[k % 17]; if (k % 2) odd[k] = C[(k + 3) % 17]; }
    mono(cat("one", d), one), mono(cat("two", d), two), mono(cat("all", d), all), mono(cat("odd", d), odd);
  }
  mono("zero", {{0, 0.0}});
  // Chebyshev series
  std::vector<std::pair<double, double>> doms = {{-1, 1}, {0, 4}, {-2, 2}, {1, 3}, {-0.5, 0.25}, {-3, 1}, {0, 1}};
  auto series = [&](const std::string& id, const std::vector<double>& c) {
    std::string p;
    double scale = 1;
    for (double k : c) { char b[40]; snprintf(b, sizeof b, "%.6f", k); p += cat(p.empty() ? "" : ", ", b); scale += std::fabs(k) * (1 + c.size()); }
    int q = 0;
    for (auto [lo, hi] : doms)
      for (auto& t : types) {
        q++;
        for (int target = 0; target < 2; target++)
          for (auto& L : ls) {
            if (L.m == Horner || L.m == PatersonStockmeyer) continue;
            if (!T && (target || L.m == Automatic) && q % 3) continue;
            char b[200];
            snprintf(b, sizeof b, "{domain_lower = %f : f64, domain_upper = %f : f64}", lo, hi);
            std::vector<double> pts;
            for (int k = 0; k <= 8; k++) pts.push_back((double)(float)(lo + (hi - lo) * k / 8));
            std::string body = cat(" %r = polynomial.eval #polynomial.typed_chebyshev_polynomial<[", p, "]> : ", PTY, ", %x ", b, " : ", t.ty());
            std::string prog = q % 2 ? wrapSecret(t.ty(), body) : wrapPlain(t.ty(), body);
            if (target) prog = cat("module attributes {backend.lattigo, backend.config_override = {has_kernel_chebyshev = true}} {\n", prog, "}\n");
            lowerOne(cat("cheb:", id, ":", lo, ":", hi, ":", t.ty(), ":", target, ":", L.name), target ? "chebkernel" : "cheb", prog, t, L, pts,
                     [c, lo = lo, hi = hi](double x) { return cheb(c, 2 * (x - lo) / (hi - lo) - 1); }, scale * 4, true);
          }
      }
  };
  series("zero", {0.0}), series("zeros", {0.0, 0.0, 0.0});
  for (int s = 1; s < (T ? 256 : 64); s++) { std::vector<double> c; for (int k = 0; k < 8; k++) if (s >> k) c.push_back(s >> k & 1 ? C[k] : 0.0); series(cat("set", s), c); }
  for (int d = 8; d <= (T ? 40 : 17); d++) {
    std::vector<double> all, one(d + 1, 0.0), odd, tiny;
    one[d] = 1;
    for (int k = 0; k <= d; k++) { all.push_back(C[k % 17]); odd.push_back(k % 2 ? C[(k + 3) % 17] : 0.0); tiny.push_back(k % 3 == 1 ? 0.000001 : C[k % 17]); }
    series(cat("one", d), one), series(cat("all", d), all), series(cat("odd", d), odd), series(cat("tiny", d), tiny);
  }
}

// ---------- function approximation
static double chebError(const Fn& f, int deg, double lo, double hi, double* top = nullptr) {  // of the interpolant at the Chebyshev points
  int n = deg + 1;
  std::vector<double> v(n), c(n);
  for (int k = 0; k < n; k++) v[k] = f(lo + (hi - lo) * (1 + std::cos(M_PI * (k + 0.5) / n)) / 2);
  for (int j = 0; j < n; j++) { for (int k = 0; k < n; k++) c[j] += v[k] * std::cos(j * M_PI * (k + 0.5) / n); c[j] *= (j ? 2.0 : 1.0) / n; }
  double e = 0;
  for (int k = 0; k <= 200; k++) { double u = -1 + k / 100.0, y = f(lo + (hi - lo) * (u + 1) / 2); e = std::max(e, std::fabs(cheb(c, u) - y)); if (top) *top = std::max(*top, std::fabs(y)); }
  return e;
}
struct Func { std::string op, extra; Fn f; double lo, hi; bool tie = false; };
static void approxOne(const std::string& id, const Func& F, const Types& t, int dom, int deg, const std::string& body, bool composite) {
  if (!mc::mine() || !mc::begin(id)) return;
  std::vector<std::pair<double, double>> doms = {{F.lo, F.hi}, {0.5, 1.5}, {1, 3}, {-2, 3}, {-0.75, 0.5}, {0.25, 0.75}};
  auto [lo, hi] = doms[dom];
  int degree = deg ? deg : 5;
  std::string prog = wrapSecret(t.ty(), body);
  auto m = D->need(prog);
  if (!m) return;
  mc::state();
  std::string key = cat("approx/", F.op);
  auto say = [&](const std::string& kind, const std::string& w) { mc::violate(key + kind, cat(id, ": ", w, "\nprogram:\n", prog, "\nafter:\n", text(*m))); };
  bool finite = true;
  for (int k = 0; k <= 400; k++) finite &= std::isfinite(F.f(lo + (hi - lo) * k / 400));
  bool ran = D->run(*m, [&](OpPassManager& p) { PolynomialApproximationOptions o; o.useCompositeRelu = composite; p.addPass(createPolynomialApproximation(o)); });
  if (!finite) { mc::count("not finite on the domain"); return; }
  if (!ran || !D->diag.empty()) { say(":fails", D->diag); return; }
  if (failed(verify(*m))) { say(":invalid", D->diag); return; }
  if (count(*m, F.op)) { say(":left", "the operation is not approximated"); return; }
  double top = 1, err = 3 * chebError(F.f, degree, lo, hi, &top) + (t.e == "f32" ? 1e-5 : 1e-9) * top;
  if (F.op == "math.exp" && hi <= 1) { int k = deg ? (int)std::ceil(std::log2((double)deg)) : 7; if (lo >= -std::ldexp(1.0, k)) err = std::max(err, 3 / std::ldexp(1.0, k)); }
  if (composite) err = 0.02 * std::max(std::fabs(lo), std::fabs(hi));
  if (F.op == "math.fpowi") err = 1e-5 * top;
  for (int stage = 0; stage < 2; stage++) {  // as approximated, and with the polynomials lowered
    if (stage) {
      if (!D->run(*m, [&](OpPassManager& p) { p.addPass(createLowerPolynomialEval()); }) || failed(verify(*m))) { say(":lower:fails", D->diag); return; }
      if (count(*m, "polynomial.eval")) { say(":lower:left", "not lowered"); return; }
    }
    mc::state();
    std::vector<double> xs;
    for (int k = 0; k <= 40; k++) xs.push_back((double)(float)(lo + (hi - lo) * k / 40));
    xs.back() = std::min(xs.back(), hi), xs[0] = std::max(xs[0], lo);
    for (size_t k = 0; k < xs.size(); k++) {
      std::string why;
      auto got = result(*m, arg(t.e, t.n, [&](int j) { return xs[(k + j) % xs.size()]; }), why);
      mc::trace(); mc::eval();
      if (!why.empty()) { say(stage ? ":lower" : "", why); return; }
      for (size_t j = 0; j < got.size(); j++) {
        double x = xs[(k + j) % xs.size()], w = F.f(x);
        if (!(std::fabs(got[j] - w) <= err)) { say(stage ? ":lower" : "", cat("at ", x, " gives ", got[j], ", the function is ", w, " (allowed error ", err, ")")); return; }
      }
      mc::outcome(show1(got));
    }
  }
}
static void approx() {
  auto sgn = [](double x) { return x > 0 ? 1.0 : x < 0 ? -1.0 : 0.0; };
  std::vector<Func> un = {
    {"math.absf", "", [](double x) { return std::fabs(x); }, -1, 1}, {"math.acos", "", [](double x) { return std::acos(x); }, -1, 1}, {"math.acosh", "", [](double x) { return std::acosh(x); }, -1, 1},
    {"math.asin", "", [](double x) { return std::asin(x); }, -1, 1}, {"math.asinh", "", [](double x) { return std::asinh(x); }, -1, 1}, {"math.atan", "", [](double x) { return std::atan(x); }, -1, 1},
    {"math.atanh", "", [](double x) { return std::atanh(x); }, -1, 1}, {"math.cbrt", "", [](double x) { return std::cbrt(x); }, -1, 1}, {"math.ceil", "", [](double x) { return std::ceil(x); }, -1, 1},
    {"math.cos", "", [](double x) { return std::cos(x); }, -1, 1}, {"math.cosh", "", [](double x) { return std::cosh(x); }, -1, 1}, {"math.erf", "", [](double x) { return std::erf(x); }, -1, 1},
    {"math.exp", "", [](double x) { return std::exp(x); }, -1, 1}, {"math.exp2", "", [](double x) { return std::exp2(x); }, -1, 1},
    {"math.expm1", "", [](double x) { return std::expm1(x); }, -1, 1}, {"math.floor", "", [](double x) { return std::floor(x); }, -1, 1}, {"math.log", "", [](double x) { return std::log(x); }, 0.1, 2},
    {"math.log10", "", [](double x) { return std::log10(x); }, 0.1, 2}, {"math.log1p", "", [](double x) { return std::log1p(x); }, -1, 1}, {"math.log2", "", [](double x) { return std::log2(x); }, 0.1, 2},
    {"math.round", "", [](double x) { return std::round(x); }, -1, 1}, {"math.rsqrt", "", [](double x) { return 1 / std::sqrt(x); }, 0.1, 2}, {"math.sin", "", [](double x) { return std::sin(x); }, -1, 1},
    {"math.sinh", "", [](double x) { return std::sinh(x); }, -1, 1}, {"math.sqrt", "", [](double x) { return std::sqrt(x); }, 0, 2}, {"math.tan", "", [](double x) { return std::tan(x); }, -1, 1},
    {"math.tanh", "", [](double x) { return std::tanh(x); }, -1, 1}, {"math.trunc", "", [](double x) { return std::trunc(x); }, -1, 1}, {"math_ext.sign", "", sgn, -1, 1},
    {"math_ext.sigmoid", "", [](double x) { return 1 / (1 + std::exp(-x)); }, -1, 1}};
  std::vector<Types> types = {{"f64", 0}, {"f32", 0}, {"f32", 2}, {"f64", 3}};
  std::vector<std::pair<double, double>> doms = {{0, 0}, {0.5, 1.5}, {1, 3}, {-2, 3}, {-0.75, 0.5}, {0.25, 0.75}};
  auto attrs = [&](int dom, int deg, int form) {
    if (!dom && !deg) return std::string();
    std::string s = " {";
    if (deg) s += cat("degree = ", deg, form ? " : i64" : " : i32");
    char b[160];
    snprintf(b, sizeof b, "domain_lower = %f : %s, domain_upper = %f : %s", doms[dom].first, form ? "f32" : "f64", doms[dom].second, form ? "f32" : "f64");
    if (dom) s += (deg ? ", " : "") + std::string(b);
    return s + "}";
  };
  std::vector<int> degs = T ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 15, 16} : std::vector<int>{0, 1, 3, 4, 8};
  for (auto& F : un)
    for (int dom = 0; dom < 6; dom++)
      for (int deg : degs)
        for (size_t q = 0; q < types.size(); q++) {
          if (!T && (q + dom + deg) % 2) continue;
          approxOne(cat("un:", F.op, ":", dom, ":", deg, ":", types[q].ty()), F, types[q], dom, deg, cat(" %r = ", F.op, " %x", attrs(dom, deg, q % 2), " : ", types[q].ty()), false);
        }
  using F2 = std::function<double(double, double)>;
  std::vector<std::pair<std::string, F2>> bin = {
    {"arith.maximumf", [](double a, double b) { return std::max(a, b); }}, {"arith.maxnumf", [](double a, double b) { return std::max(a, b); }}, {"arith.minimumf", [](double a, double b) { return std::min(a, b); }},
    {"arith.minnumf", [](double a, double b) { return std::min(a, b); }}, {"math.atan2", [](double a, double b) { return std::atan2(a, b); }}, {"math.copysign", [](double a, double b) { return std::copysign(a, b); }},
    {"math.powf", [](double a, double b) { return std::pow(a, b); }}};
  for (auto& [op, f] : bin)
    for (double c : {0.0, 1.0, -0.5, 2.0, 0.25})
      for (int left = 0; left < 2; left++)
        for (int dom = 0; dom < 6; dom++)
          for (int deg : degs)
            for (int comp = 0; comp < 2; comp++)
              for (size_t q = 0; q < types.size(); q++) {
                if (!T && (q + dom + deg) % 2) continue;
                bool relu = comp && op == "arith.maximumf" && c == 0;
                if (comp && !relu) continue;
                auto& t = types[q];
                Func F{op, "", nullptr, -1, 1};
                F.f = left ? Fn([f = f, c](double x) { return f(c, x); }) : Fn([f = f, c](double x) { return f(x, c); });
                char b[40];
                snprintf(b, sizeof b, "%f", c);
                std::string cst = cat(" %c = arith.constant ", t.n ? cat("dense<", b, ">") : std::string(b), " : ", t.ty(), "\n");
                approxOne(cat("bin:", op, ":", c, ":", left, ":", dom, ":", deg, ":", comp, ":", t.ty()), F, t, dom, deg, cat(cst, " %r = ", op, left ? " %c, %x" : " %x, %c", attrs(dom, deg, q % 2), " : ", t.ty()), relu);
              }
  for (int e = 0; e <= (T ? 40 : 17); e++)
    for (std::string it : {"i8", "i32", "i64"})
      for (auto& t : types)
        for (int dom : {0, 3}) {
          Func F{"math.fpowi", "", [e](double x) { return std::pow(x, e); }, -1, 1};
          std::string ity = t.n ? cat("tensor<", t.n, "x", it, ">") : it;
          approxOne(cat("fpowi:", e, ":", it, ":", t.ty(), ":", dom), F, t, dom, 0, cat(" %c = arith.constant ", t.n ? cat("dense<", e, ">") : cat(e), " : ", ity, "\n %r = math.fpowi %x, %c", attrs(dom, 0, 0), " : ", t.ty(), ", ", ity), false);
        }
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  T = mc::thorough();
  DialectRegistry reg;
  reg.insert<arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, math::MathDialect, affine::AffineDialect, secret::SecretDialect, polynomial::PolynomialDialect, kernel::KernelDialect, math_ext::MathExtDialect,
             mod_arith::ModArithDialect, tensor_ext::TensorExtDialect>();
  Driver d(reg);
  D = &d;
  CompilationTargetRegistry::registerTarget(CompilationTarget{BackendName::Lattigo, 16, 0, 0});
  balance();
  selects();
  compares();
  masks();
  lowering();
  approx();
  return mc::finish();
}
