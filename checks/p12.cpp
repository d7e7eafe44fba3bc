// P12: data-oblivious conversion.
#include "lib/Dialect/Secret/IR/SecretDialect.h"
#include "lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.h"
#include "lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.h"
#include "lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.h"
#include "lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.h"
#include "lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.h"
#include "passmc.h"
using namespace pm;
using namespace mlir::heir;

static void pipeline(OpPassManager& p) {
  p.addPass(createConvertSecretExtractToStaticExtract());
  p.addPass(createConvertSecretInsertToStaticInsert());
  p.addPass(createConvertSecretWhileToStaticFor());
  p.addPass(createConvertSecretForToStaticFor());
  p.addPass(createConvertIfToSelect());
}

// The observable control decisions of a run: branches taken, loop bounds, addresses.
static std::string controlTrace(ModuleOp m, const Vs& args) {
  std::string t;
  interp::Machine M(m);
  auto note = [&](Operation* o, const Vs& in) {
    auto n = o->getName().getStringRef();
    size_t b = 0, e = 0;
    if (n == "scf.if") e = 1;
    else if (n == "scf.for") e = 3;
    else if (n == "tensor.extract" || n == "memref.load") b = 1, e = in.size();
    else if (n == "tensor.insert" || n == "memref.store") b = 2, e = in.size();
    else if (n == "scf.while") { t += "while;"; return; }
    else return;
    t += n.str();
    for (size_t k = b; k < e; k++) t += "," + in[k].str();
    t += ";";
  };
  M.watch = [&](Operation* o, const Vs& in, const Vs&) { note(o, in); if (o->getName().getStringRef() == "arith.addi") t += "+"; };
  try { M.call("f", args); } catch (std::exception& e) { return std::string("!") + e.what(); }
  return t;
}

struct Arg { const char* type; bool secret; std::vector<V> dom; };

static void check(Driver& d, const std::string& id, const std::string& body, std::vector<Arg> args, const std::string& ret, bool complete = true, bool leakKnown = false, const std::string& decls = "") {
  if (!mc::mine() || !mc::begin(id)) return;
  std::string sig;
  for (size_t k = 0; k < args.size(); k++) sig += cat(k ? ", " : "", "%a", k, ": ", args[k].type, args[k].secret ? " {secret.secret}" : "");
  std::string prog = cat(decls, "func.func @f(", sig, ") -> ", ret, " {\n", body, "}\n");
  std::vector<Vs> ins;
  std::vector<int64_t> bounds;
  for (auto& a : args) bounds.push_back(a.dom.size());
  mc::product(bounds, [&](const std::vector<int64_t>& ix) { Vs v; for (size_t k = 0; k < ix.size(); k++) v.push_back(args[k].dom[ix[k]]); ins.push_back(v); });
  mc::doing("running the data-oblivious pipeline");
  auto m = preserve(d, id.substr(0, id.find(':')), prog, "f", pipeline, ins, false, [](interp::Machine& M) {
    M.ext = [](interp::Machine&, Operation* o, const Vs& in, Vs& out) { if (!isa<func::FuncOp>(o)) return false; out.push_back(in[0]); return true; };
  });
  if (!m || !complete) return;
  // same public inputs => same control trace
  std::map<std::string, std::pair<std::string, Vs>> seen;
  auto orig = d.need(prog);
  for (auto& in : ins) {
    if (exec(*orig, "f", in).kind != Outcome::OK) continue;
    std::string pub;
    for (size_t k = 0; k < in.size(); k++) if (!args[k].secret) pub += in[k].str() + "|";
    std::string t = controlTrace(*m, in);
    mc::eval();
    auto [it, fresh] = seen.emplace(pub, std::make_pair(t, in));
    if (!fresh && it->second.first != t) {
      mc::violate(cat(id.substr(0, id.find(":", id.find(":") + 1)), ":leak"), cat(id, ": control flow or addresses depend on a secret: inputs ", show(it->second.second), "and ", show(in), "give ", it->second.first.substr(0, 200), " and ", t.substr(0, 200), "\nprogram:\n", prog, "\nafter:\n", text(*m)));
      return;
    }
  }
}

static V I(int64_t v, unsigned w = 64) { return V::scalar(Sc::in(interp::wrap(v, w))); }
static std::vector<V> range(int64_t lo, int64_t hi, unsigned w = 64) { std::vector<V> r; for (int64_t i = lo; i <= hi; i++) r.push_back(I(i, w)); return r; }
static V vec(std::vector<int64_t> x) { std::vector<Sc> d; for (auto v : x) d.push_back(Sc::in(v)); return V::tensor({(int64_t)x.size()}, d); }

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, memref::MemRefDialect, secret::SecretDialect>();
  Driver d(reg);
  std::vector<V> i8 = {I(-3, 8), I(0, 8), I(1, 8), I(5, 8), I(127, 8)};
  std::vector<V> few = {I(0, 8), I(3, 8), I(-2, 8)};

  // ---- branches: nested ifs over secret/public conditions, every small body
  const char* exprs[] = {"%r = arith.addi %a0, %a1 : i8", "%r = arith.muli %a0, %a0 : i8", "%r = arith.subi %a1, %a0 : i8", "%r = arith.xori %a0, %a1 : i8"};
  const char* preds[] = {"eq", "slt", "ugt", "sge"};
  for (int s0 = 0; s0 < 2; s0++)
    for (int s1 = 0; s1 < 2; s1++)
      for (auto pr : preds)
        for (int e0 = 0; e0 < 4; e0++)
          for (int e1 = 0; e1 < 4; e1++) {
            auto sub = [](std::string s, std::string n) { s.replace(0, 2, n); return s; };
            std::vector<Arg> args{{"i8", (bool)s0, i8}, {"i8", (bool)s1, i8}};
            std::string cond = cat("%c = arith.cmpi ", pr, ", %a0, %a1 : i8\n");
            std::string x = sub(exprs[e0], "%t0"), y = sub(exprs[e1], "%t1");
            check(d, cat("if:plain:", s0, s1, pr, e0, e1), cat(cond, "%o = scf.if %c -> i8 {\n", x, "\nscf.yield %t0 : i8\n} else {\n", y, "\nscf.yield %t1 : i8\n}\nreturn %o : i8\n"), args, "i8");
            check(d, cat("if:two:", s0, s1, pr, e0, e1), cat(cond, "%o:2 = scf.if %c -> (i8, i8) {\n", x, "\nscf.yield %t0, %a0 : i8, i8\n} else {\n", y, "\nscf.yield %a1, %t1 : i8, i8\n}\n%z = arith.subi %o#0, %o#1 : i8\nreturn %z : i8\n"), args, "i8");
            check(d, cat("if:nested:", s0, s1, pr, e0, e1), cat(cond, "%k = arith.constant 2 : i8\n%c2 = arith.cmpi slt, %a0, %k : i8\n%o = scf.if %c -> i8 {\n%n = scf.if %c2 -> i8 {\n", x, "\nscf.yield %t0 : i8\n} else {\nscf.yield %a1 : i8\n}\n%n2 = arith.addi %n, %k : i8\nscf.yield %n2 : i8\n} else {\n", y, "\nscf.yield %t1 : i8\n}\nreturn %o : i8\n"), args, "i8");
            check(d, cat("if:chained:", s0, s1, pr, e0, e1), cat(cond, "%k = arith.constant 2 : i8\n%k1 = arith.constant 7 : i8\n%o = scf.if %c -> i8 {\nscf.yield %k : i8\n} else {\nscf.yield %k1 : i8\n}\n%c2 = arith.cmpi eq, %o, %k : i8\n%q = scf.if %c2 -> i8 {\n", x, "\nscf.yield %t0 : i8\n} else {\n", y, "\nscf.yield %t1 : i8\n}\nreturn %q : i8\n"), args, "i8");
          }
  // an if inside a loop and a loop inside an if
  for (int s = 0; s < 2; s++)
    for (int n = 0; n <= 3; n++) {
      std::vector<Arg> args{{"i8", true, i8}, {"i8", (bool)s, i8}};
      check(d, cat("if:inloop:", s, n), cat("%z = arith.constant 0 : i8\n%o = affine.for %i = 0 to ", n, " iter_args(%acc = %a1) -> (i8) {\n%c = arith.cmpi sgt, %a0, %acc : i8\n%w = scf.if %c -> i8 {\n%u = arith.addi %acc, %a0 : i8\nscf.yield %u : i8\n} else {\n%u = arith.subi %acc, %a0 : i8\nscf.yield %u : i8\n}\naffine.yield %w : i8\n}\nreturn %o : i8\n"), args, "i8");
    }

  // branches guarding what must not run speculatively: division, memory writes, calls with effects
  {
    const char* risky[] = {"%t = arith.divsi %a0, %a1 : i8", "%t = arith.divui %a0, %a1 : i8", "%t = arith.ceildivsi %a0, %a1 : i8", "%p = arith.addi %a0, %a0 : i8\n%t = arith.divui %p, %a1 : i8",
                           "memref.store %a0, %m[%i0] : memref<2xi8>\n%t = memref.load %m[%i1] : memref<2xi8>", "%t = memref.load %m[%i0] : memref<2xi8>\nmemref.store %t, %m[%i1] : memref<2xi8>", "%t = func.call @g(%a0) : (i8) -> i8"};
    const char* safe[] = {"%t = arith.addi %a0, %a1 : i8", "%t = arith.muli %a1, %a1 : i8"};
    const char* conds[] = {"ne, %a1, %z", "slt, %a0, %a1", "sgt, %a1, %z"};
    for (int s0 = 0; s0 < 2; s0++)
      for (int s1 = 0; s1 < 2; s1++)
        for (int r = 0; r < 7; r++)
          for (int sf = 0; sf < 2; sf++)
            for (int c = 0; c < 3; c++)
              for (int form = 0; form < 4; form++) {
                std::vector<Arg> args{{"i8", (bool)s0, i8}, {"i8", (bool)s1, few}};
                std::string pre = cat("%z = arith.constant 0 : i8\n%i0 = arith.constant 0 : index\n%i1 = arith.constant 1 : index\n%m = memref.alloc() : memref<2xi8>\nmemref.store %a1, %m[%i0] : memref<2xi8>\nmemref.store %z, %m[%i1] : memref<2xi8>\n%c = arith.cmpi ", conds[c], " : i8\n");
                auto iff = [&](std::string cond, std::string a, std::string va, std::string b, std::string vb) { return cat("scf.if ", cond, " -> i8 {\n", a, "\nscf.yield ", va, " : i8\n} else {\n", b, "\nscf.yield ", vb, " : i8\n}\n"); };
                std::string body;
                if (form == 0) body = "%o = " + iff("%c", risky[r], "%t", safe[sf], "%t");
                if (form == 1) body = "%o = " + iff("%c", safe[sf], "%t", risky[r], "%t");
                if (form == 2) body = "%o = " + iff("%c", cat("%d = arith.cmpi ne, %a1, %z : i8\n%n = ", iff("%d", risky[r], "%t", safe[sf], "%t")), "%n", safe[sf], "%t");
                if (form == 3) body = cat("%o = ", iff("%c", risky[r], "%t", "", "%a0"), "%d = arith.cmpi eq, %o, %a1 : i8\n%q = ", iff("%d", safe[sf], "%t", "", "%o"), "memref.store %q, %m[%i0] : memref<2xi8>\n");
                std::string tail = "%l0 = memref.load %m[%i0] : memref<2xi8>\n%l1 = memref.load %m[%i1] : memref<2xi8>\n%k0 = arith.xori %o, %l0 : i8\n%k5 = arith.constant 5 : i8\n%k1 = arith.muli %l1, %k5 : i8\n%k2 = arith.addi %k0, %k1 : i8\nreturn %k2 : i8\n";
                check(d, cat("guard:", form, ":", s0, s1, r, sf, c), pre + body + tail, args, "i8", false, false, r == 6 ? "func.func private @g(i8) -> i8\n" : "");
              }
  }

  // ---- loops: every combination of secret/public bounds, static bounds around them, steps
  for (int sl = 0; sl < 2; sl++)
    for (int su = 0; su < 2; su++)
      for (int step = 1; step <= 3; step++)
        for (int lo = 0; lo <= 2; lo++)
          for (int hi = 3; hi <= (T ? 6 : 5); hi++)
            for (int body = 0; body < 3; body++) {
              std::vector<Arg> args{{"index", (bool)sl, range(lo, 4)}, {"index", (bool)su, range(0, hi)}, {"i8", true, few}};
              std::string b = body == 0 ? "%x = arith.addi %acc, %a2 : i8\n" : body == 1 ? "%ii = arith.index_cast %i : index to i8\n%y = arith.muli %acc, %ii : i8\n%x = arith.addi %y, %a2 : i8\n" : "%ii = arith.index_cast %i : index to i8\n%x = arith.xori %ii, %acc : i8\n";
              check(d, cat("for:", sl, su, ":step", step, ":", lo, "-", hi, ":", body), cat("%st = arith.constant ", step, " : index\n%o = scf.for %i = %a0 to %a1 step %st iter_args(%acc = %a2) -> (i8) {\n", b, "scf.yield %x : i8\n} {lower = ", lo, " : index, upper = ", hi, " : index}\nreturn %o : i8\n"), args, "i8");
            }
  // bounds of other integer types
  for (int sl = 0; sl < 2; sl++)
    for (int su = 0; su < 2; su++)
      for (int use = 0; use < 2; use++) {
        std::vector<Arg> args{{"i32", (bool)sl, range(0, 3, 32)}, {"i32", (bool)su, range(0, 4, 32)}, {"i32", true, {I(1, 32), I(7, 32)}}};
        check(d, cat("for:i32:", sl, su, use), cat("%st = arith.constant 1 : i32\n%o = scf.for %i = %a0 to %a1 step %st iter_args(%acc = %a2) -> (i32) : i32 {\n", use ? "%x = arith.addi %acc, %i : i32\n" : "%x = arith.addi %acc, %a2 : i32\n", "scf.yield %x : i32\n} {lower = 0 : index, upper = 4 : index}\nreturn %o : i32\n"), args, "i32");
      }
  // two nested loops, the inner bound depending on the outer's variable or on a secret
  for (int s = 0; s < 2; s++)
    for (int dep = 0; dep < 2; dep++) {
      std::vector<Arg> args{{"index", true, range(0, 3)}, {"index", (bool)s, range(0, 3)}, {"i8", true, few}};
      check(d, cat("for:nest:", s, dep), cat("%c0 = arith.constant 0 : index\n%c1 = arith.constant 1 : index\n%o = scf.for %i = %c0 to %a0 step %c1 iter_args(%acc = %a2) -> (i8) {\n%q = scf.for %j = ", dep ? "%i" : "%c0", " to %a1 step %c1 iter_args(%acc2 = %acc) -> (i8) {\n%ii = arith.index_cast %j : index to i8\n%y = arith.muli %acc2, %a2 : i8\n%x = arith.addi %y, %ii : i8\nscf.yield %x : i8\n} {lower = 0 : index, upper = 3 : index}\nscf.yield %q : i8\n} {lower = 0 : index, upper = 3 : index}\nreturn %o : i8\n"), args, "i8");
    }

  // ---- while loops: one and two carried values, in every order
  for (int s0 = 0; s0 < 2; s0++)
    for (int s1 = 0; s1 < 2; s1++)
      for (int order = 0; order < 4; order++)
        for (int yo = 0; yo < 2; yo++)
          for (int mx = 4; mx <= 5; mx++) {
            std::vector<Arg> args{{"i8", (bool)s0, range(0, 4, 8)}, {"i8", (bool)s1, range(0, 4, 8)}};
            const char* cargs[] = {"%x, %y", "%y, %x", "%x, %x", "%x, %a1"};
            check(d, cat("while:", s0, s1, ":args", order, yo, ":max", mx), cat("%k = arith.constant 4 : i8\n%one = arith.constant 1 : i8\n%o:2 = scf.while (%x = %a0, %y = %a1) : (i8, i8) -> (i8, i8) {\n%s = arith.addi %x, %y : i8\n%c = arith.cmpi slt, %s, %k : i8\nscf.condition(%c) ", cargs[order], " : i8, i8\n} do {\n^bb0(%x: i8, %y: i8):\n%x1 = arith.addi %x, %one : i8\n%y1 = arith.addi %y, %x : i8\nscf.yield ", yo ? "%y1, %x1" : "%x1, %y1", " : i8, i8\n} attributes {max_iter = ", mx, " : i64}\n%z = arith.subi %o#0, %o#1 : i8\nreturn %z : i8\n"), args, "i8", order == 0);
          }
  for (int mx = 3; mx <= 4; mx++) {
    std::vector<Arg> args{{"i8", true, range(0, 4, 8)}};
    check(d, cat("while:changed:", mx), cat("%k = arith.constant 3 : i8\n%one = arith.constant 1 : i8\n%o = scf.while (%x = %a0) : (i8) -> i8 {\n%s = arith.addi %x, %one : i8\n%c = arith.cmpi sle, %s, %k : i8\nscf.condition(%c) %s : i8\n} do {\n^bb0(%x: i8):\n%x1 = arith.addi %x, %one : i8\nscf.yield %x1 : i8\n} attributes {max_iter = ", mx, " : i64}\nreturn %o : i8\n"), args, "i8", false);
  }

  // ---- secret addresses
  for (int st = 0; st < 2; st++)
    for (int si = 0; si < 2; si++)
      for (int n = 1; n <= (T ? 5 : 4); n++) {
        std::vector<int64_t> v;
        for (int k = 0; k < n; k++) v.push_back(10 + 7 * k);
        std::string ty = cat("tensor<", n, "xi8>");
        std::vector<Arg> args{{ty.c_str(), (bool)st, {vec(v), vec(std::vector<int64_t>(v.rbegin(), v.rend()))}}, {"index", (bool)si, range(0, n - 1)}, {"i8", true, few}, {"index", true, range(0, n - 1)}};
        check(d, cat("address:extract:", st, si, n), "%o = tensor.extract %a0[%a1] : " + ty + "\nreturn %o : i8\n", args, "i8");
        check(d, cat("address:insert:", st, si, n), "%o = tensor.insert %a2 into %a0[%a1] : " + ty + "\nreturn %o : " + ty + "\n", args, ty);
        check(d, cat("address:both:", st, si, n), cat("%e = tensor.extract %a0[%a1] : ", ty, "\n%s = arith.addi %e, %a2 : i8\n%o = tensor.insert %s into %a0[%a3] : ", ty, "\nreturn %o : ", ty, "\n"), args, ty);
        check(d, cat("address:twice:", st, si, n), cat("%t = tensor.insert %a2 into %a0[%a1] : ", ty, "\n%e = tensor.extract %t[%a3] : ", ty, "\n%o = tensor.insert %e into %t[%a1] : ", ty, "\nreturn %o : ", ty, "\n"), args, ty);
        check(d, cat("address:ifidx:", st, si, n), cat("%c0 = arith.constant 0 : index\n%cn = arith.constant ", n - 1, " : index\n%c = arith.cmpi eq, %a1, %c0 : index\n%ix = scf.if %c -> index {\nscf.yield %cn : index\n} else {\nscf.yield %c0 : index\n}\n%o = tensor.extract %a0[%ix] : ", ty, "\nreturn %o : i8\n"), args, "i8");
        check(d, cat("address:computed:", st, si, n), cat("%cn = arith.constant ", n, " : index\n%s = arith.addi %a1, %a3 : index\n%m = arith.remui %s, %cn : index\n%o = tensor.extract %a0[%m] : ", ty, "\nreturn %o : i8\n"), args, "i8");
        check(d, cat("address:inloop:", st, si, n), cat("%o = affine.for %i = 0 to ", n, " iter_args(%t = %a0) -> (", ty, ") {\n%e = tensor.extract %t[%a1] : ", ty, "\n%s = arith.addi %e, %a2 : i8\n%t2 = tensor.insert %s into %t[%i] : ", ty, "\naffine.yield %t2 : ", ty, "\n}\nreturn %o : ", ty, "\n"), args, ty);
      }
  return mc::finish();
}
