// P26: rewrites of linear-algebra operations (canonicalization, fusion, unit dimensions, reductions, activations).
#include <cmath>
#include "lib/Dialect/MathExt/IR/MathExtDialect.h"
#include "lib/Dialect/MathExt/IR/MathExtOps.h"
#include "lib/Dialect/Secret/IR/SecretDialect.h"
#include "lib/Dialect/TensorExt/IR/TensorExtDialect.h"
#include "lib/Transforms/ActivationCanonicalizations/ActivationCanonicalizations.h"
#include "lib/Transforms/DropUnitDims/DropUnitDims.h"
#include "lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.h"
#include "lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.h"
#include "lib/Transforms/ReductionCanonicalizations/ReductionCanonicalizations.h"
#include "lib/Transforms/TensorLinalgToAffineLoops/TensorLinalgToAffineLoops.h"
#include "mlir/Dialect/ControlFlow/IR/ControlFlowOps.h"
#include "mlir/Dialect/Math/IR/Math.h"
#include "passmc.h"
using namespace pm;
using namespace mlir::heir;
using Strs = std::vector<std::string>;
using Dims = std::vector<int64_t>;

static Driver* D;
static bool T;

static const PassStep LC{"linalg-canonicalizations", [](OpPassManager& p) { p.addPass(createLinalgCanonicalizations()); }};
static const PassStep FUSE{"fuse-linear-ops", [](OpPassManager& p) { p.addPass(createLinalgFuseLinearOps()); }};
static const PassStep UNIT{"drop-unit-dims", [](OpPassManager& p) { p.addPass(createDropUnitDims()); }};
static const PassStep RED{"reduction-canonicalizations", [](OpPassManager& p) { p.addPass(createReductionCanonicalizations()); }};
static const PassStep ACT{"activation-canonicalizations", [](OpPassManager& p) { p.addPass(createActivationCanonicalizations()); }};

static std::string shp(const Dims& d) { std::string s; for (auto x : d) s += cat(x, "x"); return s; }
static std::string tty(const Dims& d, const std::string& e = "f32") { return "tensor<" + shp(d) + e + ">"; }
static int64_t vol(const Dims& d) { int64_t n = 1; for (auto x : d) n *= x; return n; }
static V sym(const Dims& d, int& v) { std::vector<Sc> x; for (int64_t k = 0; k < vol(d); k++) x.push_back(Sc::var(v++)); return V::tensor(d, x); }
// Distinct values that keep sums and products exact in f32.
static V val(const Dims& d, const std::string& e, int salt) {
  std::vector<Sc> x;
  for (int64_t k = 0; k < vol(d); k++) {
    int64_t v = ((k * 5 + salt * 7) % 11) - 5 + (k > 10 ? k : 0);
    x.push_back(e == "i1" ? Sc::in((k * 3 + salt) % 2 ? -1 : 0) : e[0] == 'f' || e[0] == 'b' ? Sc::fl((double)v) : Sc::in(v));
  }
  return V::tensor(d, x);
}
static std::string dense(const Dims& d, const std::string& e, int salt, bool splat = false) {
  int64_t n = 0;
  auto one = [&] { int64_t k = splat ? 3 : n++; int64_t v = ((k * 5 + salt * 7) % 13) - 6; if (e == "i1") return std::string(k % 3 ? "true" : "false"); if (e[0] == 'i' && e != "index" && atoi(e.c_str() + 1) < 8) v = ((v % 4) + 4) % 4; return e[0] == 'f' || e[0] == 'b' ? cat(v, ".0") : cat(v); };
  std::function<std::string(size_t)> nest = [&](size_t q) -> std::string { if (q == d.size()) return one(); std::string o = "["; for (int64_t z = 0; z < d[q]; z++) o += (z ? ", " : "") + nest(q + 1); return o + "]"; };
  return "arith.constant dense<" + (splat ? one() : nest(0)) + "> : " + tty(d, e);
}
static std::string lst(const Dims& v) { std::string s = "["; for (size_t k = 0; k < v.size(); k++) s += cat(k ? ", " : "", v[k]); return s + "]"; }
static std::string join(const std::vector<int64_t>& p) { std::string s; for (auto x : p) s += cat(x, "."); return s; }
static void setup(interp::Machine& M) {
  M.ext = [](interp::Machine& m, Operation* o, const Vs& in, Vs& out) {
    auto n = o->getName().getStringRef();
    if (n == "math_ext.sigmoid") {
      V r = copyArg(in[0]);
      for (auto& s : *r.d) if (s.k == Sc::F) s = Sc::fl(1 / (1 + std::exp(-s.f)));
      out.push_back(r);
      return true;
    }
    if (n == "cf.assert") { if (!(in[0].ix() & 1)) throw interp::UB("assert"); return true; }
    return false;
  };
}
static void go(const std::string& id, const std::string& prog, const std::vector<PassStep>& steps, int depth, const std::vector<Vs>& ins, const std::string& sub = "") {
  std::string fam = id.substr(0, id.find(':')) + (sub.empty() ? "" : "/" + sub);
  mc::doing(fam);
  mc::guarded([&] { explore(*D, fam, prog, "f", steps, depth, ins, setup); });
}
#define CASE(id) if (!mc::mine() || !mc::begin(id)) return

// linalg.map with one or several operations.
static void maps() {
  std::vector<Dims> ds{{2}, {1}, {1, 2}, {2, 1}, {2, 2}, {1, 1}, {1, 2, 1}};
  struct B { std::string name, body, res; int sym; };
  std::vector<B> bs{
      {"sub", "%r = arith.subf %x, %y : f32\n linalg.yield %r : f32", "f32", 1}, {"subr", "%r = arith.subf %y, %x : f32\n linalg.yield %r : f32", "f32", 1}, {"subself", "%r = arith.mulf %x, %x : f32\n linalg.yield %r : f32", "f32", 1},
      {"first", "%r = arith.subf %x, %y : f32\n linalg.yield %x : f32", "f32", 1}, {"outer", "%r = arith.subf %x, %s : f32\n linalg.yield %r : f32", "f32", 1}, {"outerl", "%r = arith.subf %s, %y : f32\n linalg.yield %r : f32", "f32", 1},
      {"const", "%r = arith.mulf %k, %y : f32\n linalg.yield %r : f32", "f32", 1}, {"two", "%q = arith.subf %x, %y : f32\n %r = arith.mulf %q, %x : f32\n linalg.yield %r : f32", "f32", 1}, {"id", "linalg.yield %y : f32", "f32", 1},
      {"yieldouter", "linalg.yield %s : f32", "f32", 1}, {"cmp", "%r = arith.cmpf olt, %x, %y : f32\n linalg.yield %r : i1", "i1", 0}, {"ext", "%r = arith.extf %y : f32 to f64\n linalg.yield %r : f64", "f64", 0},
      {"fast", "%r = arith.subf %x, %y fastmath<fast> : f32\n linalg.yield %r : f32", "f32", 1}, {"neg", "%r = arith.negf %y : f32\n linalg.yield %r : f32", "f32", 1}, {"pow", "%r = math.fpowi %x, %i2 : f32, i32\n linalg.yield %r : f32", "f32", 1},
      {"sel", "%r = arith.select %b, %x, %y : f32\n linalg.yield %r : f32", "f32", 0}, {"yielddead", "%r = arith.subf %x, %y : f32\n linalg.yield %s : f32", "f32", 1},
  };
  for (auto& d : ds)
    for (auto& b : bs)
      for (int init = 0; init < 2; init++)
        for (int one = 0; one < 3; one++) [&] {  // two inputs, the same input twice, one input
          bool usesX = b.body.find("%x") != std::string::npos;
          if (one == 2 && usesX) return;
          std::string id = cat("map:", shp(d), ":", b.name, ":", init, ":", one);
          CASE(id);
          std::string t = tty(d), to = tty(d, b.res);
          std::string prog = "func.func @f(%a: " + t + ", %c: " + t + ", %s: f32, %b: i1, %o: " + to + ") -> " + to + " {\n %k = arith.constant 3.0 : f32\n %i2 = arith.constant 2 : i32\n" + (init ? "" : " %e = tensor.empty() : " + to + "\n") + " %m = linalg.map ins(" +
                             (one == 2 ? "%c : " + t : one == 1 ? "%a, %a : " + t + ", " + t : "%a, %c : " + t + ", " + t) + ") outs(" + (init ? "%o" : "%e") + " : " + to + ")\n (" + (one == 2 ? "" : "%x: f32, ") + "%y: f32) {\n " + b.body + "\n }\n return %m : " + to + "\n}";
          std::vector<Vs> ins;
          for (int q = 0; q < (b.sym ? 1 : 2); q++) {
            int v = 0;
            if (b.sym) { V x = sym(d, v), y = sym(d, v), s = V::scalar(Sc::var(v++)); ins.push_back({x, y, s, V::scalar(Sc::in(-1)), sym(d, v)}); }
            else ins.push_back({val(d, "f32", 1), val(d, "f32", 2), V::scalar(Sc::fl(9)), V::scalar(Sc::in(q ? -1 : 0)), val(d, b.res, 3)});
          }
          go(id, prog, {LC, UNIT}, 2, ins);
        }();
}

// linalg.generic: maps x iterators x bodies.
static void generics() {
  struct Bd { std::string name, text; int ni; bool two, scalar; };
  std::vector<Bd> bodies{
      {"muladd", "%m = arith.mulf %x, %y : f32\n %n = arith.addf %o, %m : f32\n linalg.yield %n : f32", 2, false, false},
      {"sub", "%m = arith.subf %y, %x : f32\n linalg.yield %m : f32", 2, false, false},
      {"acc", "%n = arith.addf %o, %x : f32\n linalg.yield %n : f32", 1, false, false},
      {"accr", "%n = arith.subf %x, %o : f32\n linalg.yield %n : f32", 1, false, false},
      {"copy", "linalg.yield %x : f32", 1, false, false},
      {"out", "linalg.yield %o : f32", 1, false, false},
      {"outer", "%m = arith.subf %s, %x : f32\n linalg.yield %m : f32", 1, false, false},
      {"youter", "linalg.yield %s : f32", 1, false, false},
      {"const", "%k = arith.constant 3.0 : f32\n %m = arith.mulf %x, %k : f32\n linalg.yield %m : f32", 1, false, false},
      {"outerconst", "%m = arith.mulf %x, %kk : f32\n %n = arith.subf %m, %y : f32\n linalg.yield %n : f32", 2, false, false},
      {"twoout", "%m = arith.mulf %x, %y : f32\n %n = arith.subf %y, %x : f32\n linalg.yield %n, %m : f32, f32", 2, true, false},
      {"twored", "%m = arith.addf %x, %o : f32\n %n = arith.subf %p, %y : f32\n linalg.yield %m, %n : f32, f32", 2, true, false},
      {"scalar", "%m = arith.subf %x, %y : f32\n linalg.yield %m : f32", 2, false, true},
      {"assert", "%cc = arith.cmpi slt, %c0, %c1 : index\n cf.assert %cc, \"no\"\n %m = arith.subf %x, %y : f32\n linalg.yield %m : f32", 2, false, false},
  };
  auto run = [&](const Dims& r, const Strs& inMaps, const Strs& outMaps) {
    int nl = r.size();
    std::string ds = "(";
    for (int k = 0; k < nl; k++) ds += cat(k ? ", " : "", "d", k);
    ds += ") -> ";
    auto shapeOf = [&](const std::string& m) {
      Dims s;
      for (size_t q = 0; q < m.size(); q++) { if (m[q] == 'd') s.push_back(r[m[++q] - '0']); else if (isdigit(m[q])) s.push_back(1); }
      return s;
    };
    for (auto& m1 : inMaps)
      for (auto& m2 : inMaps)
        for (auto& mo : outMaps)
          for (auto& b : bodies) [&] {
            if ((b.ni == 1 || b.scalar) && &m2 != &inMaps[0]) return;
            std::string id = cat("generic:", shp(r), ":", m1, ":", m2, ":", mo, ":", b.name);
            CASE(id);
            for (int k = 0; k < nl; k++) {
              auto has = [&](const std::string& m) { return m.find(cat("d", k)) != std::string::npos; };
              if (!has(m1) && !(b.ni == 2 && !b.scalar && has(m2)) && !has(mo)) return;
            }
            Dims s1 = shapeOf(m1), s2 = shapeOf(m2), so = shapeOf(mo);
            std::string it, t1 = tty(s1), t2 = tty(s2), to = tty(so);
            for (int k = 0; k < nl; k++) it += cat(k ? ", " : "", mo.find(cat("d", k)) != std::string::npos ? "\"parallel\"" : "\"reduction\"");
            std::string ins = "%a", its = t1, imap = "affine_map<" + ds + m1 + ">";
            if (b.ni == 2) { ins += b.scalar ? ", %s" : ", %b"; its += b.scalar ? ", f32" : ", " + t2; imap += ", affine_map<" + ds + (b.scalar ? "()" : m2) + ">"; }
            std::string om = ", affine_map<" + ds + mo + ">";
            std::string prog = "func.func @f(%a: " + t1 + ", %b: " + t2 + ", %c: " + to + ", %d: " + to + ", %s: f32) -> (" + to + (b.two ? ", " + to : "") + ") {\n %kk = arith.constant 2.0 : f32\n %c0 = arith.constant 0 : index\n %c1 = arith.constant 1 : index\n %r" + (b.two ? ":2" : "") +
                               " = linalg.generic {indexing_maps = [" + imap + om + (b.two ? om : "") + "], iterator_types = [" + it + "]} ins(" + ins + " : " + its + ") outs(%c" + (b.two ? ", %d : " + to + ", " + to : " : " + to) + ") {\n ^bb0(%x: f32" + (b.ni == 2 ? ", %y: f32" : "") + ", %o: f32" + (b.two ? ", %p: f32" : "") + "):\n " + b.text + "\n } -> " +
                               (b.two ? "(" + to + ", " + to + ")" : to) + "\n return " + (b.two ? "%r#0, %r#1 : " + to + ", " + to : "%r : " + to) + "\n}";
            int v = 0;
            V a = sym(s1, v), bb = sym(s2, v), c = sym(so, v), d = sym(so, v), s = V::scalar(Sc::var(v++));
            // The installed MLIR's decomposition of projected permutations never settles on a parallel generic with a permuted output, and crashes on scalar operands.
            std::vector<PassStep> steps{RED, UNIT};
            bool ordered = true, unit = false;
            for (size_t q = 0, last = 0; q < mo.size(); q++) if (isdigit(mo[q])) { ordered &= mo[q] >= (int)last; last = mo[q]; }
            for (auto z : r) unit |= z == 1;
            if (!b.scalar && (it.find("reduction") != std::string::npos ? ordered || !unit : mo == outMaps[0])) steps.insert(steps.begin(), LC);
            go(id, prog, steps, nl == 3 && !T ? 1 : 2, {{a, bb, c, d, s}}, b.name);
          }();
  };
  run({}, {"()"}, {"()"});
  run({3}, {"(d0)", "()", "(0)"}, {"(d0)", "()"});
  run({1}, {"(d0)", "()", "(0)"}, {"(d0)", "()"});
  Strs two{"(d0, d1)", "(d1, d0)", "(d0)", "(d1)", "(0, d1)", "(d0, 0)", "(0, 0)", "()", "(d1, d1)"}, twoO{"(d0, d1)", "(d1, d0)", "(d0)", "(d1)", "()"};
  run({2, 3}, two, twoO);
  run({2, 2}, two, twoO);
  run({1, 2}, two, twoO);
  run({2, 1}, two, twoO);
  Strs three{"(d0, d1, d2)", "(d2, d0, d1)", "(d0, d2)", "(d2, d1)", "(d1)", "(d0, d0, d2)", "(0, d1, d2)", "(d2, 0)"}, threeO{"(d0, d1, d2)", "(d0, d1)", "(d2, d0)", "(d1)", "(d2)", "(d1, d0, d2)", "(d1, d2)", "(d2, d1)", "(d0, d2)"};
  run({2, 2, 2}, three, threeO);
  run({1, 2, 2}, three, threeO);
  Strs four{"(d0, d1, d2, d3)"}, fourO{"(d2, d3)", "(d3, d2)", "(d0, d1)", "(d1, d0)", "(d0, d3)", "(d3, d0)", "(d1, d2, d3)", "(d1, d3, d2)", "(d3, d1, d2)", "(d3)", "(d0, d1, d2)", "(d0, d2, d1)", "(d0, d3, d2)", "()"};
  run({2, 2, 2, 2}, four, fourO);
  if (T) { run({2, 1, 2}, three, threeO); run({2, 3, 2}, three, threeO); run({1, 2, 2, 1}, four, fourO); }
}

// Broadcasts, transposes and fills, of constants and of values; slices of broadcasts; products with transposed matrices.
static void shapesOps() {
  struct S { Dims in, out, dims; };
  std::vector<S> ss{{{2}, {2, 3}, {1}}, {{2}, {3, 2}, {0}}, {{}, {2}, {0}}, {{}, {1}, {0}}, {{2}, {1, 2}, {0}}, {{2}, {2, 1}, {1}}, {{1}, {1, 1}, {0}}, {{1}, {1, 1}, {1}}, {{2}, {1, 2, 1}, {0, 2}}, {{2}, {2, 2, 2}, {0, 1}}, {{2}, {2, 2, 2}, {0, 2}}, {{2}, {2, 2, 2}, {1, 2}},
                    {{2, 3}, {2, 1, 3}, {1}}, {{2, 3}, {2, 2, 3}, {1}}, {{2, 3}, {2, 3, 2}, {2}}, {{1, 2}, {3, 1, 2}, {0}}, {{}, {1, 2}, {0, 1}}, {{2, 2}, {2, 2, 2}, {0}}, {{2, 2}, {2, 2, 2}, {1}}, {{1}, {3, 1}, {0}}, {{1}, {1, 3}, {1}}};
  for (auto& s : ss)
    for (int c = 0; c < 3; c++)
      for (std::string e : {"f32", "i1", "i32"}) {
        if (e != "f32" && c == 0) continue;
        [&] {
          std::string id = cat("broadcast:", shp(s.in), ":", shp(s.out), ":", lst(s.dims), ":", c, ":", e);
          CASE(id);
          std::string prog = "func.func @f(%a: " + tty(s.in, e) + ", %o: " + tty(s.out, e) + ") -> " + tty(s.out, e) + " {\n" + (c ? " %k = " + dense(s.in, e, 1, c == 2) + "\n" : "") + " %r = linalg.broadcast ins(" + (c ? "%k" : "%a") + " : " + tty(s.in, e) + ") outs(%o : " + tty(s.out, e) + ") dimensions = " + lst(s.dims) + "\n return %r : " + tty(s.out, e) + "\n}";
          int v = 0;
          Vs in = e == "i1" ? Vs{val(s.in, e, 0), val(s.out, e, 1)} : Vs{sym(s.in, v), sym(s.out, v)};
          go(id, prog, {LC, UNIT}, 2, {in});
        }();
        // every slice
        if (e != "f32" || vol(s.out) > (T ? 12 : 6)) continue;
        std::vector<int64_t> bound;
        for (auto x : s.out) bound.push_back(x), bound.push_back(x), bound.push_back(2);
        bound.push_back(2);
        mc::product(bound, [&](const std::vector<int64_t>& p) {
          Dims off, size, st, res;
          for (size_t k = 0; k < s.out.size(); k++) {
            off.push_back(p[3 * k]); size.push_back(p[3 * k + 1] + 1); st.push_back(p[3 * k + 2] + 1);
            if (off[k] + (size[k] - 1) * st[k] >= s.out[k]) return;
            if (!(p.back() && size[k] == 1)) res.push_back(size[k]);
          }
          std::string id = cat("slice:", shp(s.in), ":", shp(s.out), ":", lst(s.dims), ":", c, ":", join(p));
          CASE(id);
          std::string prog = "func.func @f(%a: " + tty(s.in) + ", %o: " + tty(s.out) + ") -> " + tty(res) + " {\n" + (c ? " %k = " + dense(s.in, e, 1, c == 2) + "\n" : "") + " %r = linalg.broadcast ins(" + (c ? "%k" : "%a") + " : " + tty(s.in) + ") outs(%o : " + tty(s.out) + ") dimensions = " + lst(s.dims) + "\n %z = tensor.extract_slice %r" + lst(off) + lst(size) + lst(st) + " : " + tty(s.out) + " to " + tty(res) +
                             "\n return %z : " + tty(res) + "\n}";
          int v = 0;
          V a = sym(s.in, v);
          go(id, prog, {LC, UNIT}, 2, {{a, sym(s.out, v)}});
        });
      }
  for (auto& d : std::vector<Dims>{{3}, {2, 3}, {2, 2}, {1, 3}, {2, 3, 2}, {2, 1, 3}, {2, 2, 2}, {0, 2}}) {
    std::vector<int64_t> perm(d.size());
    for (size_t k = 0; k < perm.size(); k++) perm[k] = k;
    do {
      for (std::string e : {"f32", "f64", "f16", "bf16", "i1", "i4", "i8", "i16", "i32", "i64", "i128", "index"})
        for (int c = 0; c < 3; c++) [&] {
          if (c == 0 && e != "f32") return;
          if (vol(d) == 0 && c) return;
          Dims out;
          for (auto p : perm) out.push_back(d[p]);
          std::string id = cat("transpose:", shp(d), ":", join(perm), ":", e, ":", c);
          CASE(id);
          std::string prog = "func.func @f(%a: " + tty(d, e) + ", %o: " + tty(out, e) + ") -> " + tty(out, e) + " {\n" + (c ? " %k = " + dense(d, e, 1, c == 2) + "\n" : "") + " %r = linalg.transpose ins(" + (c ? "%k" : "%a") + " : " + tty(d, e) + ") outs(%o : " + tty(out, e) + ") permutation = " + lst(perm) + "\n return %r : " + tty(out, e) + "\n}";
          go(id, prog, {LC, UNIT}, 2, {{val(d, e, 1), val(out, e, 2)}});
        }();
    } while (std::next_permutation(perm.begin(), perm.end()));
  }
  for (auto& d : std::vector<Dims>{{}, {2}, {1, 2}, {0}})
    for (std::string e : {"f32", "f64", "i1", "i8", "i32", "index"})
      for (int c = 0; c < 2; c++)
        for (std::string f : {"same", "i8", "f32", "i64"}) [&] {  // the filled value may have another type, which linalg converts
          if (f != "same" && (e == "index" || e == "i1")) return;
          if (f == e) return;
          std::string ft = f == "same" ? e : f;
          std::string id = cat("fill:", shp(d), ":", e, ":", f, ":", c);
          CASE(id);
          std::string prog = "func.func @f(%s: " + ft + ", %o: " + tty(d, e) + ") -> " + tty(d, e) + " {\n" + (c ? " %k = arith.constant " + (ft == "i1" ? std::string("true") : ft[0] == 'f' ? "5.0 : " + ft : "5 : " + ft) + "\n" : "") + " %r = linalg.fill ins(" + (c ? "%k" : "%s") + " : " + ft + ") outs(%o : " + tty(d, e) + ") -> " + tty(d, e) + "\n return %r : " + tty(d, e) + "\n}";
          go(id, prog, {LC, UNIT}, 2, {{V::scalar(val({1}, ft, 1).d->at(0)), val(d, e, 2)}});
        }();
  // products
  struct P { std::string op; std::function<std::vector<Dims>(int, int, int)> f; };
  std::vector<P> ps{{"matvec", [](int m, int k, int) { return std::vector<Dims>{{m, k}, {k}, {m}}; }}, {"vecmat", [](int m, int k, int) { return std::vector<Dims>{{m}, {m, k}, {k}}; }}, {"matmul", [](int m, int k, int n) { return std::vector<Dims>{{m, k}, {k, n}, {m, n}}; }},
                    {"dot", [](int m, int, int) { return std::vector<Dims>{{m}, {m}, {}}; }}, {"batch_matmul", [](int m, int k, int n) { return std::vector<Dims>{{n, m, k}, {n, k, m}, {n, m, m}}; }}, {"batch_matvec", [](int m, int k, int n) { return std::vector<Dims>{{n, m, k}, {n, k}, {n, m}}; }},
                    {"batch_vecmat", [](int m, int k, int n) { return std::vector<Dims>{{n, m}, {n, m, k}, {n, k}}; }}};
  for (auto& p : ps)
    for (int m = 1; m <= 3; m++)
      for (int k = 1; k <= 3; k++)
        for (int n = 1; n <= 2; n++)
          for (int tr = 0; tr < 4; tr++) [&] {  // which operands are transposes (of values or constants)
            if (p.op[0] == 'd' && (k > 1 || n > 1)) return;
            if ((p.op == "matvec" || p.op == "vecmat") && n > 1) return;
            auto s = p.f(m, k, n);
            int which = tr & 1 ? 1 : 0;
            if (tr && s[which].size() != 2) which = 1 - which;
            if (tr && s[which].size() != 2) return;
            std::string id = cat("product:", p.op, ":", m, ":", k, ":", n, ":", tr);
            CASE(id);
            std::vector<Dims> a = s;
            std::string pre, names[2] = {"%a", "%b"};
            if (tr) {
              std::swap(a[which][0], a[which][1]);
              if (tr >= 2) { pre += " %k = " + dense(a[which], "f32", 1) + "\n"; }
              pre += " %e = tensor.empty() : " + tty(s[which]) + "\n %t = linalg.transpose ins(" + (tr >= 2 ? "%k" : names[which]) + " : " + tty(a[which]) + ") outs(%e : " + tty(s[which]) + ") permutation = [1, 0]\n";
              names[which] = "%t";
            }
            std::string prog = "func.func @f(%a: " + tty(a[0]) + ", %b: " + tty(a[1]) + ", %o: " + tty(s[2]) + ") -> " + tty(s[2]) + " {\n" + pre + " %r = linalg." + p.op + " ins(" + names[0] + ", " + names[1] + " : " + tty(s[0]) + ", " + tty(s[1]) + ") outs(%o : " + tty(s[2]) + ") -> " + tty(s[2]) + "\n return %r : " + tty(s[2]) + "\n}";
            int v = 0;
            V x = sym(a[0], v), y = sym(a[1], v);
            go(id, prog, {LC, UNIT}, 2, {{x, y, sym(s[2], v)}});
          }();
}

// Pooling, dilated convolutions and convolutions followed by pooling.
static void pools() {
  auto I64 = [](const Dims& d) { return "dense<" + lst(d) + "> : tensor<" + cat(d.size()) + "xi64>"; };
  struct After { std::string name, text; };  // uses %p, type T; result %q
  std::vector<After> af{{"none", ""}, {"div", " %k = arith.constant dense<4.0> : T\n %q = arith.divf %p, %k : T\n"}, {"rdiv", " %k = arith.constant dense<4.0> : T\n %q = arith.divf %k, %p : T\n"}, {"mul", " %k = arith.constant dense<0.5> : T\n %q = arith.mulf %p, %k : T\n"},
                       {"divtwice", " %k = arith.constant dense<4.0> : T\n %q0 = arith.divf %p, %k : T\n %q = arith.addf %q0, %p : T\n"}, {"self", " %q = arith.divf %p, %p : T\n"}, {"vdiv", " %q = arith.divf %p, %v : T\n"},
                       {"gdiv", " %k = arith.constant 4.0 : f32\n %e = tensor.empty() : T\n %q = linalg.generic {indexing_maps = [affine_map<ID>, affine_map<ID>], iterator_types = [ITS]} ins(%p : T) outs(%e : T) {\n ^bb0(%x: f32, %y: f32):\n %zz = arith.divf %x, %k : f32\n linalg.yield %zz : f32\n } -> T\n"},
                       {"gdivout", " %k = arith.constant 4.0 : f32\n %q = linalg.generic {indexing_maps = [affine_map<ID>, affine_map<ID>], iterator_types = [ITS]} ins(%p : T) outs(%v : T) {\n ^bb0(%x: f32, %y: f32):\n %zz = arith.divf %x, %k : f32\n linalg.yield %y : f32\n } -> T\n"},
                       {"gtrans", " %k = arith.constant 4.0 : f32\n %e = tensor.empty() : T\n %q = linalg.generic {indexing_maps = [affine_map<ID>, affine_map<TR>], iterator_types = [ITS]} ins(%p : T) outs(%e : T) {\n ^bb0(%x: f32, %y: f32):\n %zz = arith.divf %x, %k : f32\n linalg.yield %zz : f32\n } -> T\n"}};
  auto fin = [&](const After& a, const Dims& o) {
    std::string r, t = tty(o), ids, its, trs;
    for (size_t k = 0; k < o.size(); k++) ids += cat(k ? ", " : "", "d", k), its += std::string(k ? ", " : "") + "\"parallel\"";
    for (size_t k = 0; k < o.size(); k++) { size_t j = k + 2 == o.size() ? k + 1 : k + 1 == o.size() ? k - 1 : k; trs += cat(k ? ", " : "", "d", j); }
    for (size_t k = 0; k < a.text.size(); k++) {
      if (a.text[k] == 'T' && a.text[k + 1] != 'R' && a.text[k - 1] != 'I') r += t;
      else if (a.text.compare(k, 2, "ID") == 0) r += "(" + ids + ") -> (" + ids + ")", k++;
      else if (a.text.compare(k, 2, "TR") == 0) r += "(" + ids + ") -> (" + trs + ")", k++;
      else if (a.text.compare(k, 3, "ITS") == 0) r += its, k += 2;
      else r += a.text[k];
    }
    return r;
  };
  auto square = [](const Dims& o) { return o[o.size() - 1] == o[o.size() - 2]; };
  for (int batch = 1; batch <= 2; batch++)
    for (int c = 1; c <= 2; c++)
      for (int kh = 1; kh <= 3; kh++)
        for (int kw = 0; kw <= 2; kw++)  // 0: one-dimensional
          for (int st = 1; st <= 2; st++)
            for (int dil = 1; dil <= 2; dil++)
              for (int n = 0; n < 2; n++)
                for (auto& a : af)
                  for (int zero = 0; zero < 3; zero++) [&] {
                    Dims in{batch, c}, out{batch, c}, win{kh}, str{st}, di{dil};
                    in.push_back((kh - 1) * dil + 1 + n * st); out.push_back(1 + n);
                    if (kw) { in.push_back((kw - 1) * (3 - dil) + 1 + n * (3 - st)); out.push_back(1 + n); win.push_back(kw); str.push_back(3 - st); di.push_back(3 - dil); }
                    if ((a.name == "gtrans") && (!kw || !square(out))) return;
                    if (!T && (batch == 2 && c == 2)) return;
                    std::string id = cat("pool:", kw ? "2d" : "1d", ":", batch, ":", c, ":", kh, ":", kw, ":", st, ":", dil, ":", n, ":", a.name, ":", zero);
                    CASE(id);
                    std::string t = tty(out), op = kw ? "linalg.pooling_nchw_sum" : "linalg.pooling_ncw_sum";
                    std::string init = zero == 0 ? " %i = arith.constant dense<0.0> : " + t + "\n" : zero == 1 ? " %z = arith.constant 0.0 : f32\n %ie = tensor.empty() : " + t + "\n %i = linalg.fill ins(%z : f32) outs(%ie : " + t + ") -> " + t + "\n" : " %i = tensor.cast %v : " + t + " to " + t + "\n";
                    std::string prog = "func.func @f(%a: " + tty(in) + ", %v: " + t + ") -> " + t + " {\n" + init + " %w = tensor.empty() : " + tty(win) + "\n %p = " + op + " {strides = " + I64(str) + ", dilations = " + I64(di) + "} ins(%a, %w : " + tty(in) + ", " + tty(win) + ") outs(%i : " + t + ") -> " + t + "\n" + fin(a, out) + " return " + (a.text.empty() ? "%p" : "%q") + " : " + t + "\n}";
                    V v = val(out, "f32", 2);
                    for (auto& x : *v.d) x = Sc::fl(std::ldexp(1.0, (int)(std::abs(x.f)) % 4));
                    go(id, prog, {LC}, 1, {{val(in, "f32", 1), v}}, zero == 2 ? "init-" + a.name : a.name);
                  }();
  // dilated convolutions
  for (int c = 1; c <= 2; c++)
    for (int f = 1; f <= 2; f++)
      for (int kh = 1; kh <= 3; kh++)
        for (int kw = 0; kw <= 2; kw++)
          for (int st = 1; st <= 2; st++)
            for (int d1 = 1; d1 <= 3; d1++)
              for (int d2 = 1; d2 <= (kw ? 2 : 1); d2++)
                for (int cst = 0; cst < 3; cst++) [&] {
                  std::string id = cat("dilate:", c, ":", f, ":", kh, ":", kw, ":", st, ":", d1, ":", d2, ":", cst);
                  CASE(id);
                  Dims in{1, c, (kh - 1) * d1 + 1 + st}, fil{f, c, kh}, out{1, f, 2}, str{st}, di{d1};
                  if (kw) { in.push_back((kw - 1) * d2 + 2); fil.push_back(kw); out.push_back(2); str.push_back(1); di.push_back(d2); }
                  std::string op = kw ? "linalg.conv_2d_nchw_fchw" : "linalg.conv_1d_ncw_fcw";
                  std::string prog = "func.func @f(%a: " + tty(in) + ", %b: " + tty(fil) + ", %o: " + tty(out) + ") -> " + tty(out) + " {\n" + (cst ? " %k = " + dense(fil, "f32", 1, cst == 2) + "\n" : "") + " %r = " + op + " {strides = " + I64(str) + ", dilations = " + I64(di) + "} ins(%a, " + (cst ? "%k" : "%b") + " : " + tty(in) + ", " + tty(fil) + ") outs(%o : " + tty(out) + ") -> " + tty(out) + "\n return %r : " + tty(out) + "\n}";
                  int v = 0;
                  V x = sym(in, v), y = sym(fil, v);
                  go(id, prog, {LC, UNIT}, T ? 2 : 1, {{x, y, sym(out, v)}});
                }();
  // integer convolution with a narrow filter, then pooling
  for (int cst = 0; cst < 3; cst++)
    for (std::string e : {"i8", "i32"}) [&] {
      CASE(cat("convpool:int:", e, ":", cst));
      std::string fl = "dense<" + std::string(cst == 0 ? "100" : cst == 1 ? "[[[[100, 60], [70, -80]]]]" : "[[[[1, 2], [3, -4]]]]") + "> : tensor<1x1x2x2x" + e + ">";
      std::string prog = "func.func @f(%a: tensor<1x1x5x5x" + e + ">, %m: tensor<1x1x4x4xi32>, %v: tensor<1x1x2x2xi32>) -> tensor<1x1x2x2xi32> {\n %fl = arith.constant " + fl + "\n %c = linalg.conv_2d_nchw_fchw {strides = " + I64({1, 1}) + ", dilations = " + I64({1, 1}) + "} ins(%a, %fl : tensor<1x1x5x5x" + e + ">, tensor<1x1x2x2x" + e + ">) outs(%m : tensor<1x1x4x4xi32>) -> tensor<1x1x4x4xi32>\n %w = tensor.empty() : tensor<2x2xi32>\n %p = linalg.pooling_nchw_sum {strides = " + I64({2, 2}) + ", dilations = " + I64({1, 1}) + "} ins(%c, %w : tensor<1x1x4x4xi32>, tensor<2x2xi32>) outs(%v : tensor<1x1x2x2xi32>) -> tensor<1x1x2x2xi32>\n return %p : tensor<1x1x2x2xi32>\n}";
      go(cat("convpool:int:", e, ":", cst), prog, {LC}, 1, {{val({1, 1, 5, 5}, e, 1), val({1, 1, 4, 4}, "i32", 2), val({1, 1, 2, 2}, "i32", 3)}}, "int");
    }();
  // convolution, then pooling, then scaling
  for (int batch = 1; batch <= 2; batch++)
    for (int c = 1; c <= 2; c++)
      for (int f = 1; f <= 2; f++)
        for (int k = 1; k <= 2; k++)
          for (int kk = 0; kk < 2; kk++)
            for (int p1 = 1; p1 <= 2; p1++)
              for (int p2 = 1; p2 <= 2; p2++)
                for (int sc = 1; sc <= 2; sc++)
                  for (int sp = 1; sp <= 2; sp++)
                    for (int dl = 0; dl < 4; dl++)
                      for (auto& a : af)
                        for (int init = 0; init < 2; init++)
                          for (int cst = 0; cst < 3; cst++) [&] {
                            if (!T && (c + f > 3 || (batch == 2 && (a.name != "none" || cst == 2)) || (cst == 2 && a.name != "div"))) return;
                            if (batch == 2 && c + f > 2) return;
                            if (cst == 0 && a.name != "none" && a.name != "div") return;
                            int cd = dl & 1 ? 2 : 1, pd = dl & 2 ? 2 : 1;
                            int kh = k, kw = kk ? 3 - k : k;
                            Dims out{batch, f, 2, 2};
                            int ch = (2 - 1) * sp + (p1 - 1) * pd + 1, cw = (2 - 1) * (3 - sp) + (p2 - 1) * pd + 1;
                            Dims mid{batch, f, ch, cw}, in{batch, c, (ch - 1) * sc + (kh - 1) * cd + 1, (cw - 1) * (3 - sc) + (kw - 1) * cd + 1}, fil{f, c, kh, kw}, win{p1, p2};
                            std::string id = cat("convpool:", batch, ":", c, ":", f, ":", kh, ":", kw, ":", p1, ":", p2, ":", sc, ":", sp, ":", dl, ":", a.name, ":", init, ":", cst);
                            CASE(id);
                            std::string t = tty(out), tm = tty(mid);
                            std::string prog = "func.func @f(%a: " + tty(in) + ", %b: " + tty(fil) + ", %m: " + tm + ", %v: " + t + ") -> " + t + " {\n" + (cst == 1 ? " %fl = " + dense(fil, "f32", 1) + "\n" : cst == 2 ? " %fl = " + dense(fil, "f32", 1, true) + "\n" : "") + (init ? "" : " %i0 = arith.constant dense<0.0> : " + tm + "\n %i1 = arith.constant dense<0.0> : " + t + "\n") +
                                               " %c = linalg.conv_2d_nchw_fchw {strides = " + I64({sc, 3 - sc}) + ", dilations = " + I64({cd, cd}) + "} ins(%a, " + (cst ? "%fl" : "%b") + " : " + tty(in) + ", " + tty(fil) + ") outs(" + (init ? "%m" : "%i0") + " : " + tm + ") -> " + tm + "\n %w = tensor.empty() : " + tty(win) +
                                               "\n %p = linalg.pooling_nchw_sum {strides = " + I64({sp, 3 - sp}) + ", dilations = " + I64({pd, pd}) + "} ins(%c, %w : " + tm + ", " + tty(win) + ") outs(" + (init ? "%v" : "%i1") + " : " + t + ") -> " + t + "\n" + fin(a, out) + " return " + (a.text.empty() ? "%p" : "%q") + " : " + t + "\n}";
                            V v = val(out, "f32", 2);
                            for (auto& x : *v.d) x = Sc::fl(std::ldexp(1.0, (int)(std::abs(x.f)) % 4));
                            if (a.name == "rdiv" || a.name == "self") return;  // not exact
                            go(id, prog, {LC}, 1, {{val(in, "f32", 1), val(fil, "f32", 3), val(mid, "f32", 4), v}}, init ? "init-" + a.name : a.name);
                          }();
}

// A linear operation followed by elementwise arithmetic.
static void fusion() {
  struct L { std::string op, attrs; std::vector<Dims> s; int wi; };  // operands 0 and 1, output
  std::string cv1 = "{strides = dense<1> : tensor<1xi64>, dilations = dense<1> : tensor<1xi64>} ", cv2 = "{strides = dense<1> : tensor<2xi64>, dilations = dense<1> : tensor<2xi64>} ";
  std::vector<L> ls{{"matvec", "", {{2, 2}, {2}, {2}}, 0}, {"matvec", "", {{2, 3}, {3}, {2}}, 0}, {"vecmat", "", {{2}, {2, 2}, {2}}, 1}, {"vecmat", "", {{3}, {3, 2}, {2}}, 1}, {"matmul", "", {{2, 2}, {2, 2}, {2, 2}}, 1}, {"matmul", "", {{2, 1}, {1, 3}, {2, 3}}, 1}, {"dot", "", {{2}, {2}, {}}, 1},
                    {"conv_1d_ncw_fcw", cv1, {{1, 1, 3}, {2, 1, 2}, {1, 2, 2}}, 1}, {"conv_1d_nwc_wcf", cv1, {{1, 3, 1}, {2, 1, 2}, {1, 2, 2}}, 1}, {"conv_2d_nchw_fchw", cv2, {{1, 1, 3, 3}, {2, 1, 2, 2}, {1, 2, 2, 2}}, 1}, {"conv_2d_nhwc_hwcf", cv2, {{1, 3, 3, 1}, {2, 2, 1, 2}, {1, 2, 2, 2}}, 1}, {"conv_2d_nhwc_fhwc", cv2, {{1, 3, 3, 1}, {2, 2, 2, 1}, {1, 2, 2, 2}}, 1},
                    {"batch_matmul", "", {{1, 2, 2}, {1, 2, 2}, {1, 2, 2}}, 1}, {"pooling_ncw_sum", cv1, {{1, 2, 3}, {2}, {1, 2, 2}}, 1}, {"pooling_ncw_max", cv1, {{1, 2, 3}, {2}, {1, 2, 2}}, 1},
                    {"pooling_nhwc_min", cv2, {{1, 3, 3, 1}, {2, 2}, {1, 2, 2, 1}}, 1}, {"reduce-add", "", {{2, 3}, {1}, {2}}, 1}, {"reduce-max", "", {{2, 3}, {1}, {2}}, 1}, {"reduce-mul", "", {{2, 3}, {1}, {2}}, 1}, {"generic-add", "", {{2, 3}, {1}, {2}}, 1}, {"generic-outs", "", {{2, 3}, {1}, {2}}, 1}, {"generic-square", "", {{2, 3}, {1}, {2}}, 1}, {"map", "", {{2}, {2}, {2}}, 1},
                    {"generic-double", "", {{2, 3}, {1}, {2}}, 1}, {"depthwise_conv_1d_nwc_wc", cv1, {{1, 3, 2}, {2, 2}, {1, 2, 2}}, 1}};
  Strs ops{"addf", "subf", "mulf", "divf"};
  Strs others{"arg", "constsplat", "const", "splat", "bcast-first", "bcast-last", "bcast-mid", "expand", "self", "dependent", "constv", "late"};
  Strs uses{"once", "twice", "loop", "ifblock"};
  for (auto& l : ls)
    for (auto& op : ops)
      for (int side = 0; side < 2; side++)
        for (auto& o : others)
          for (auto& u : uses)
            for (int init = 0; init < 3; init++)    // zero, value, empty
              for (int wc = 0; wc < 2; wc++) [&] {  // constant weights
                if (u != "once" && (wc || (o != "arg" && o != "constsplat" && o != "splat"))) return;
                if (wc && l.wi == 1 && l.op.find("pool") == 0) return;
                bool mul = op == "mulf" || op == "divf";
                if (wc && !mul) return;
                const Dims& d = l.s[2];
                if (o.rfind("bcast", 0) == 0 && d.size() < (o == "bcast-mid" ? 3 : 2)) return;
                if (o == "expand" && d.empty()) return;
                std::string id = cat("fuse:", l.op, ":", shp(l.s[0]), ":", op, ":", side, ":", o, ":", u, ":", init, ":", wc);
                CASE(id);
                std::string t = tty(d), body, oth = "%q";
                body += init == 0 ? " %i = arith.constant dense<0.0> : " + t + "\n" : init == 1 ? " %i = tensor.cast %v : " + t + " to " + t + "\n" : " %i = tensor.empty() : " + t + "\n";
                std::string other;
                if (o == "arg") oth = "%g";
                if (o == "constsplat") other = " %q = arith.constant dense<4.0> : " + t + "\n";
                if (o == "const") other = " %q = " + std::string("arith.constant dense<") + [&] { std::string c = dense(d, "f32", 0); c = c.substr(c.find('<') + 1); std::string r; int n = 0; for (size_t k = 0; k < c.size(); k++) { if (isdigit(c[k]) || c[k] == '-') { while (isdigit(c[k]) || c[k] == '.' || c[k] == '-') k++; k--; r += cat(1 << (n++ % 3), ".0"); } else if (c[k] == '>') break; else r += c[k]; } return r; }() + "> : " + t + "\n";
                if (o == "splat") other = " %q = tensor.splat %s : " + t + "\n";
                if (o.rfind("bcast", 0) == 0) {
                  int keep = o == "bcast-first" ? 0 : o == "bcast-mid" ? 1 : (int)d.size() - 1;
                  Dims added;
                  for (int k = 0; k < (int)d.size(); k++) if (k != keep) added.push_back(k);
                  if (d[keep] != 2 && d[keep] != 1 && d[keep] != 3) return;
                  std::string tv = tty({d[keep]});
                  other = " %kv = arith.constant dense<" + std::string(d[keep] == 2 ? "[2.0, 4.0]" : d[keep] == 3 ? "[2.0, 4.0, 8.0]" : "[2.0]") + "> : " + tv + "\n %qe = tensor.empty() : " + t + "\n %q = linalg.broadcast ins(%kv : " + tv + ") outs(%qe : " + t + ") dimensions = " + lst(added) + "\n";
                }
                if (o == "expand") {  // a vector whose entries all belong to the last dimension of size > 1
                  if (vol(d) == 0) return;
                  Dims flat{vol(d)};
                  std::string re = "[[";
                  for (size_t k = 0; k < d.size(); k++) re += cat(k ? ", " : "", k);
                  std::string os = lst(d);
                  std::string vals;
                  for (int64_t k = 0; k < vol(d); k++) vals += cat(k ? ", " : "", 1 << (k % 4), ".0");
                  if (d.size() == 1) return;
                  other = " %kv = arith.constant dense<[" + vals + "]> : " + tty(flat) + "\n %q = tensor.expand_shape %kv " + re + "]] output_shape " + os + " : " + tty(flat) + " into " + t + "\n";
                }
                if (o == "self") oth = "%r";
                std::string w0 = "%a", w1 = "%b";
                if (wc) { (l.wi ? w1 : w0) = "%wt"; body += " %wt = " + dense(l.s[l.wi], "f32", 2) + "\n"; }
                std::string T0 = tty(l.s[0]), T1 = tty(l.s[1]), lin;
                auto gen = [&](const std::string& bd) { return " %r = linalg.generic {indexing_maps = [affine_map<(d0, d1) -> (d0, d1)>, affine_map<(d0, d1) -> (d0)>], iterator_types = [\"parallel\", \"reduction\"]} ins(" + w0 + " : " + T0 + ") outs(%i : " + t + ") {\n ^bb0(%x: f32, %y: f32):\n " + bd + "\n } -> " + t + "\n"; };
                if (l.op.rfind("reduce", 0) == 0) lin = " %r = linalg.reduce ins(" + w0 + " : " + T0 + ") outs(%i : " + t + ") dimensions = [1]\n (%x: f32, %y: f32) {\n %z = arith." + (l.op == "reduce-add" ? "addf" : l.op == "reduce-max" ? "maximumf" : "mulf") + " %x, %y : f32\n linalg.yield %z : f32\n }\n";
                else if (l.op == "generic-add") lin = gen("%z = arith.addf %x, %y : f32\n linalg.yield %z : f32");
                else if (l.op == "generic-outs") lin = gen("%zz = arith.mulf %x, %y : f32\n %z = arith.addf %zz, %y : f32\n linalg.yield %z : f32");
                else if (l.op == "generic-square") lin = gen("%zz = arith.mulf %x, %x : f32\n %z = arith.addf %y, %zz : f32\n linalg.yield %z : f32");
                else if (l.op == "generic-double") lin = gen("%z = arith.addf %y, %y : f32\n linalg.yield %z : f32");
                else if (l.op == "map") lin = " %r = linalg.map ins(" + w0 + ", " + w1 + " : " + T0 + ", " + T1 + ") outs(%i : " + t + ")\n (%x: f32, %y: f32) {\n %z = arith.mulf %x, %y : f32\n linalg.yield %z : f32\n }\n";
                else lin = " %r = linalg." + l.op + " " + l.attrs + "ins(" + w0 + ", " + w1 + " : " + T0 + ", " + T1 + ") outs(%i : " + t + ") -> " + t + "\n";
                if (o == "dependent") other = " %q0 = arith.mulf %r, %g : " + t + "\n %q = arith.addf %q0, %g : " + t + "\n";
                if (o == "late") other = " %q0 = arith.addf %g, %g : " + t + "\n %q = arith.mulf %q0, %g : " + t + "\n";
                if (o == "constv") other = " %q0 = arith.constant dense<2.0> : " + t + "\n %q = arith.mulf %g, %q0 : " + t + "\n";
                bool after = o == "dependent" || o == "late" || o == "constv" || side == 1;
                std::string ap = " %z = arith." + op + (side ? " " + oth + ", %r" : " %r, " + oth) + " : " + t + "\n", res = " return %z : " + t + "\n}";
                if (u == "twice") ap += " %z2 = arith.addf %z, %r : " + t + "\n", res = " return %z2 : " + t + "\n}";
                if (u == "loop") ap = " %z = scf.for %ii = %c0 to %c2 step %c1 iter_args(%zi = %g) -> (" + t + ") {\n %zk = arith." + op + (side ? (o == "arg" ? " %zi, %r" : " " + oth + ", %r") : (o == "arg" ? " %r, %zi" : " %r, " + oth)) + " : " + t + "\n %zl = arith.addf %zk, %zi : " + t + "\n scf.yield %zl : " + t + "\n }\n";
                if (u == "ifblock") ap = " %z = scf.if %cond -> (" + t + ") {\n %zk = arith." + op + (side ? " " + oth + ", %r" : " %r, " + oth) + " : " + t + "\n scf.yield %zk : " + t + "\n } else {\n scf.yield %r : " + t + "\n }\n";
                std::string prog = "func.func @f(%a: " + T0 + ", %b: " + T1 + ", %g: " + t + ", %v: " + t + ", %s: f32, %cond: i1) -> " + t + " {\n %c0 = arith.constant 0 : index\n %c1 = arith.constant 1 : index\n %c2 = arith.constant 2 : index\n" + body + (after ? lin + other : other + lin) + ap + res;
                std::vector<Vs> ins;
                bool exact = op == "divf" || l.op.find("max") != std::string::npos || l.op.find("min") != std::string::npos;
                for (int cnd = 0; cnd < (u == "ifblock" ? 2 : 1); cnd++) {
                  int v = 0;
                  V c = V::scalar(Sc::in(cnd ? 0 : -1));
                  if (!exact) { V a = sym(l.s[0], v), b = sym(l.s[1], v), g = sym(d, v), vv = sym(d, v), s = V::scalar(Sc::var(v++)); ins.push_back({a, b, g, vv, s, c}); continue; }
                  V g = val(d, "f32", 5), s = V::scalar(Sc::fl(4));
                  for (auto& x : *g.d) x = Sc::fl(std::ldexp(1.0, (int)std::abs(x.f) % 4));
                  V a = val(l.s[0], "f32", 1), b = val(l.s[1], "f32", 2);
                  if (op == "divf" && side == 1) return;  // handled below: only whether the quotient turns round matters
                  ins.push_back({a, b, g, val(d, "f32", 3), s, c});
                }
                go(id, prog, {FUSE}, 1, ins, u != "once" ? u : o == "self" || o == "dependent" ? "dep" : op + (side ? "-right" : "-left") + (init == 1 && mul && (l.op.find("mat") != std::string::npos || l.op.find("conv") == 0) ? "-init" : ""));
              }();
  // the linear operation as divisor: powers of two keep it exact
  for (std::string op : {"matvec", "vecmat"})
    for (int init = 0; init < 2; init++) [&] {
      CASE(cat("divisor:", op, ":", init));
      bool mv = op == "matvec";
      std::string A = mv ? "tensor<2x2xf32>" : "tensor<2xf32>", B = mv ? "tensor<2xf32>" : "tensor<2x2xf32>";
      std::string prog = "func.func @f(%a: " + A + ", %b: " + B + ", %v: tensor<2xf32>) -> tensor<2xf32> {\n %k = arith.constant dense<16.0> : tensor<2xf32>\n" + (init ? " %i = tensor.cast %v : tensor<2xf32> to tensor<2xf32>\n" : " %i = arith.constant dense<0.0> : tensor<2xf32>\n") + " %r = linalg." + op + " ins(%a, %b : " + A + ", " + B + ") outs(%i : tensor<2xf32>) -> tensor<2xf32>\n %z = arith.divf %k, %r : tensor<2xf32>\n return %z : tensor<2xf32>\n}";
      auto m = V::tensor({2, 2}, {Sc::fl(1), Sc::fl(3), Sc::fl(5), Sc::fl(-1)});
      auto x = V::tensor({2}, {Sc::fl(1), Sc::fl(1)});
      auto v = V::tensor({2}, {Sc::fl(mv ? 4 : 2), Sc::fl(mv ? 4 : 6)});
      go(cat("divisor:", op, ":", init), prog, {FUSE}, 1, {{mv ? m : x, mv ? x : m, v}});
    }();
}

// Selects and sigmoids become activations.
static void activations() {
  Strs ip{"eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"}, fp{"oeq", "ogt", "oge", "olt", "ole", "one", "ueq", "ugt", "uge", "ult", "ule", "une", "ord", "uno", "true", "false"};
  for (std::string e : {"i8", "f32"})
    for (int n : {0, 2})
      for (auto& p : e == "f32" ? fp : ip)
        for (int arr = 0; arr < 8; arr++)
          for (int c = 0; c < 2; c++)
            for (int gen = 0; gen < (n == 2 ? 2 : 1); gen++) [&] {
              std::string id = cat("select:", e, ":", n, ":", p, ":", arr, ":", c, ":", gen);
              CASE(id);
              std::string t = n && !gen ? cat("tensor<", n, "x", e, ">") : e, T = cat("tensor<2x", e, ">");
              std::string k = e == "f32" ? "0.0" : "0", y = c ? "%k" : "%b";
              std::string x0 = arr & 1 ? y : "%a", x1 = arr & 1 ? "%a" : y, s0 = arr & 2 ? y : "%a", s1 = arr & 2 ? "%a" : y;
              if (arr & 4) s1 = s0;
              std::string body = " %k = arith.constant " + (n && !gen ? "dense<" + k + ">" : k) + " : " + t + "\n %q = arith.cmp" + (e == "f32" ? "f " : "i ") + p + ", " + x0 + ", " + x1 + " : " + t + "\n %r = arith.select %q, " + s0 + ", " + s1 + " : " + (n && !gen ? "tensor<2xi1>, " : "") + t + "\n";
              std::string prog;
              if (gen) prog = "func.func @f(%aa: " + T + ", %bb: " + T + ") -> " + T + " {\n %e = tensor.empty() : " + T + "\n %z = linalg.generic {indexing_maps = [affine_map<(d0) -> (d0)>, affine_map<(d0) -> (d0)>, affine_map<(d0) -> (d0)>], iterator_types = [\"parallel\"]} ins(%aa, %bb : " + T + ", " + T + ") outs(%e : " + T + ") attrs = {domain_lower = -4.0 : f64, domain_upper = 4.0 : f64} {\n ^bb0(%a: " + e + ", %b: " + e + ", %o: " + e + "):\n" + body + " linalg.yield %r : " + e + "\n } -> " + T + "\n return %z : " + T + "\n}";
              else prog = "func.func @f(%a: " + t + ", %b: " + t + ") -> " + t + " {\n" + body + " return %r : " + t + "\n}";
              std::vector<Vs> ins;
              for (int i = -2; i <= 2; i++)
                for (int j = -2; j <= 2; j++) {
                  auto sc = [&](int v) { return e == "f32" ? Sc::fl(v) : Sc::in(v); };
                  if (n) ins.push_back({V::tensor({2}, {sc(i), sc(j)}), V::tensor({2}, {sc(j), sc(-1)})});
                  else ins.push_back({V::scalar(sc(i)), V::scalar(sc(j))});
                }
              go(id, prog, {ACT, LC}, 2, ins);
            }();
  for (std::string e : {"f32", "f64"})
    for (int n : {0, 2})
      for (std::string c1 : {"1.0", "2.0"})
        for (std::string c2 : {"1.0", "0.5"})
          for (int form = 0; form < 6; form++) [&] {
            std::string id = cat("sigmoid:", e, ":", n, ":", c1, ":", c2, ":", form);
            CASE(id);
            std::string t = n ? cat("tensor<", n, "x", e, ">") : e;
            auto k = [&](const std::string& v) { return n ? "dense<" + v + ">" : v; };
            std::string arg = form == 1 ? "%x" : "%m", add = form == 2 ? "%k2, %e" : form == 5 ? "%e, %x" : "%e, %k2", div = form == 3 ? "%s, %k1" : "%k1, %s";
            std::string prog = "func.func @f(%x: " + t + ") -> " + t + " {\n %k1 = arith.constant " + k(c1) + " : " + t + "\n %k2 = arith.constant " + k(c2) + " : " + t + "\n %m = arith." + (form == 4 ? "subf %k1, %x" : "negf %x") + " : " + t + "\n %e = math.exp " + arg + " : " + t + "\n %s = arith.addf " + add + " : " + t + "\n %r = arith.divf " + div + " : " + t + "\n return %r : " + t + "\n}";
            std::vector<Vs> ins;
            if (e == "f64") for (double x : {-3.0, -0.5, 0.0, 0.25, 2.0}) ins.push_back({n ? V::tensor({2}, {Sc::fl(x), Sc::fl(x + 1)}) : V::scalar(Sc::fl(x))});
            else ins.push_back({n ? V::tensor({2}, {Sc::fl(0), Sc::fl(0)}) : V::scalar(Sc::fl(0))});
            go(id, prog, {ACT}, 1, ins);
          }();
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  T = mc::thorough();
  DialectRegistry reg;
  reg.insert<arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, math::MathDialect, affine::AffineDialect, linalg::LinalgDialect, memref::MemRefDialect, tensor_ext::TensorExtDialect, secret::SecretDialect, math_ext::MathExtDialect, cf::ControlFlowDialect>();
  Driver d(reg);
  D = &d;
  maps();
  generics();
  shapesOps();
  pools();
  fusion();
  activations();
  return mc::finish();
}
