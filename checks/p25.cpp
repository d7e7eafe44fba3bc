// P25: lowering of tensor programs to loops and scalars, loop unrolling and folding of constant tensors.
#include "lib/Dialect/TensorExt/IR/TensorExtDialect.h"
#include "lib/Transforms/ApplyFolders/ApplyFolders.h"
#include "lib/Transforms/ElementwiseToAffine/ElementwiseToAffine.h"
#include "lib/Transforms/FoldConstantTensors/FoldConstantTensors.h"
#include "lib/Transforms/FullLoopUnroll/FullLoopUnroll.h"
#include "lib/Transforms/InlineActivations/InlineActivations.h"
#include "lib/Transforms/TensorLinalgToAffineLoops/TensorLinalgToAffineLoops.h"
#include "lib/Transforms/TensorToScalars/TensorToScalars.h"
#include "mlir/Dialect/Bufferization/IR/Bufferization.h"
#include "mlir/Dialect/Func/Extensions/InlinerExtension.h"
#include "mlir/Dialect/Math/IR/Math.h"
#include "passmc.h"
using namespace pm;
using namespace mlir::heir;
using Strs = std::vector<std::string>;
using Dims = std::vector<int64_t>;

static Driver* D;
static bool T;

static const PassStep ELEM{"elementwise-to-affine", [](OpPassManager& p) { p.addPass(createElementwiseToAffine()); }};
static const PassStep UNROLL{"full-loop-unroll", [](OpPassManager& p) { p.addPass(createFullLoopUnroll()); }};
static const PassStep FOLD{"fold-constant-tensors", [](OpPassManager& p) { p.addPass(createFoldConstantTensors()); }};
static const PassStep LINALG{"linalg-to-affine", [](OpPassManager& p) { p.addPass(createTensorLinalgToAffineLoops()); }};
static const PassStep FOLDERS{"apply-folders", [](OpPassManager& p) { p.addPass(createApplyFolders()); }};
static const PassStep INLINE{"inline-activations", [](OpPassManager& p) { p.addPass(createInlineActivations()); }};
static const PassStep CANON{"canonicalize", [](OpPassManager& p) { p.addPass(createCanonicalizerPass()); }};
static PassStep scalars(int n) { return {"tensor-to-scalars", [n](OpPassManager& p) { TensorToScalarsOptions o; o.maxSize = n; p.addPass(createTensorToScalars(o)); }}; }

static std::string shp(const Dims& d) { std::string s; for (auto x : d) s += cat(x, "x"); return s; }
static std::string tty(const Dims& d, const std::string& e) { return "tensor<" + shp(d) + e + ">"; }
static int64_t vol(const Dims& d) { int64_t n = 1; for (auto x : d) n *= x; return n; }
static V sym(const Dims& d, int& v) { std::vector<Sc> x; for (int64_t k = 0; k < vol(d); k++) x.push_back(Sc::var(v++)); return d.empty() ? V::tensor({}, x) : V::tensor(d, x); }
static V val(const Dims& d, const std::string& e, int salt) {
  std::vector<Sc> x;
  for (int64_t k = 0; k < vol(d); k++) {
    int64_t v = ((k * 5 + salt * 7) % 11) - 5 + (k > 10 ? k : 0);
    if (e == "i1") x.push_back(Sc::in((k + salt) % 2 ? -1 : 0));
    else if (e[0] == 'f') x.push_back(Sc::fl((double)v));
    else x.push_back(Sc::in(v));
  }
  return V::tensor(d, x);
}
static std::vector<Dims> shapes() {
  std::vector<Dims> r{{}, {1}, {2}, {3}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {1, 1}, {2, 1, 2}, {2, 2, 2}, {0}, {2, 0}};
  if (T) r.insert(r.end(), {{5}, {3, 2}, {3, 3}, {1, 2, 3}, {2, 3, 2}, {1, 2, 1, 2}, {0, 2}});
  return r;
}
static Dims at(const Dims& s, int64_t k) { Dims r(s.size()); for (size_t q = s.size(); q--;) r[q] = k % s[q], k /= s[q]; return r; }

// Elementwise operations on tensors -> loops over scalars.
static void elementwise() {
  struct E { std::string name, text, a, b, c, r; bool symbolic; };  // text uses %a %b %c; types A B C
  std::vector<E> es;
  for (std::string o : {"addi", "subi", "muli"}) es.push_back({o, "arith." + o + " %a, %b : A", "i32", "i32", "", "i32", true});
  for (std::string o : {"andi", "xori", "maxsi", "minui", "shrsi"}) es.push_back({o, "arith." + o + " %a, %b : A", "i32", "i32", "", "i32", false});
  for (std::string o : {"addf", "subf", "mulf"}) es.push_back({o, "arith." + o + " %a, %b : A", "f32", "f32", "", "f32", true});
  for (std::string o : {"divf", "maximumf"}) es.push_back({o, "arith." + o + " %a, %b : A", "f32", "f32", "", "f32", false});
  for (std::string p : {"slt", "uge", "eq"}) es.push_back({"cmpi-" + p, "arith.cmpi " + p + ", %a, %b : A", "i32", "i32", "", "i1", false});
  es.push_back({"cmpf", "arith.cmpf ogt, %a, %b : A", "f32", "f32", "", "i1", false});
  es.push_back({"select", "arith.select %c, %a, %b : C, A", "f32", "f32", "i1", "f32", false});
  es.push_back({"selects", "arith.select %s, %a, %b : A", "f32", "f32", "", "f32", false});
  es.push_back({"extsi", "arith.extsi %a : A to R", "i8", "i8", "", "i32", false});
  es.push_back({"extui", "arith.extui %a : A to R", "i8", "i8", "", "i32", false});
  es.push_back({"sitofp", "arith.sitofp %a : A to R", "i32", "i32", "", "f64", false});
  es.push_back({"negf", "arith.negf %a : A", "f32", "f32", "", "f32", true});
  es.push_back({"fpowi", "math.fpowi %a, %b : A, B", "f32", "i32", "", "f32", false});
  es.push_back({"absf", "math.absf %a : A", "f32", "f32", "", "f32", false});
  es.push_back({"selfsub", "arith.subf %b, %a : A", "f32", "f32", "", "f32", true});
  auto sub = [](std::string s, const E& e, const Dims& d) {
    std::string o;
    for (char ch : s) o += ch == 'A' ? tty(d, e.a) : ch == 'B' ? tty(d, e.b) : ch == 'C' ? tty(d, e.c.empty() ? "i1" : e.c) : ch == 'R' ? tty(d, e.r) : std::string(1, ch);
    return o;
  };
  for (auto& d : shapes())
    for (auto& e : es)
      for (int chain = 0; chain < 3; chain++) {
        if (chain && (e.r != e.a || (chain == 2 && e.b != e.a))) continue;
        std::string id = cat("elem:", shp(d), ":", e.name, ":", chain);
        if (!mc::mine() || !mc::begin(id)) continue;
        mc::doing("elem");
        mc::guarded([&] {
          std::string prog = "func.func @f(%a: " + tty(d, e.a) + ", %b: " + tty(d, e.b) + ", %c: " + tty(d, "i1") + ", %s: i1) -> " + tty(d, e.r) + " {\n  %r = " + sub(e.text, e, d) + "\n";
          std::string res = "%r";
          if (chain) {
            std::string t = e.text;  // the result is used by the operation again: as first operand, or as second with the original first
            std::string u;
            for (size_t k = 0; k < t.size(); k++) {
              if (t.compare(k, 2, chain == 1 ? "%a" : "%b") == 0) u += "%r", k++;
              else u += t[k];
            }
            prog += "  %q = " + sub(u, e, d) + "\n";
            res = "%q";
          }
          prog += "  return " + res + " : " + tty(d, e.r) + "\n}";
          std::vector<Vs> ins;
          for (int s = 0; s < 2; s++) {
            int v = 0;
            V a = e.symbolic ? sym(d, v) : val(d, e.a, 1), b = e.symbolic ? sym(d, v) : e.name == "shrsi" || e.name == "fpowi" ? val(d, "i1", 1) : val(d, e.b, 2);
            if (e.name == "shrsi" || e.name == "fpowi") for (auto& x : *b.d) x.i = x.i ? 2 : 1;
            ins.push_back({a, b, val(d, "i1", s), V::scalar(Sc::in(s ? -1 : 0))});
          }
          explore(*D, "elem", prog, "f", {ELEM, UNROLL, CANON}, 3, ins);
        });
      }
}

// (The installed MLIR unrolls a loop wrongly when it yields a carried value unchanged or swaps carried values; bodies avoid that.)
// Loops: every small nest of affine loops that carries values.
static void loops() {
  struct B { int lb, ub, st; };
  std::vector<B> bs{{0, 0, 1}, {0, 1, 1}, {0, 2, 1}, {0, 3, 1}, {1, 4, 2}, {0, 4, 3}, {3, 2, 1}, {-1, 2, 1}, {2, 3, 5}};
  if (T) bs.insert(bs.end(), {{0, 5, 1}, {0, 6, 4}, {5, 5, 1}, {-3, 3, 2}});
  // bodies over the counters %i (and %j), the carried values %x %y and a tensor %t of 4 elements
  Strs one{
      "%u = arith.addi %x, %y : i32\n %w = arith.subi %x, %u : i32\n affine.yield %u, %w, %t : i32, i32, tensor<4xi32>",
      "%c = arith.index_cast %i : index to i32\n %u = arith.muli %x, %c : i32\n %v = arith.subi %u, %y : i32\n %w = arith.muli %y, %y : i32\n affine.yield %w, %v, %t : i32, i32, tensor<4xi32>",
      "%k = affine.apply affine_map<(d0) -> ((d0 + 1) mod 4)>(%i)\n %e = tensor.extract %t[%k] : tensor<4xi32>\n %l = affine.apply affine_map<(d0) -> ((d0 * 3 + 3) mod 4)>(%i)\n %n = tensor.insert %x into %t[%l] : tensor<4xi32>\n %w = arith.addi %x, %x : i32\n affine.yield %e, %w, %n : i32, i32, tensor<4xi32>",
  };
  for (auto& b : bs)
    for (size_t k = 0; k < one.size(); k++)
      for (int used = 0; used < 2; used++) {
        std::string id = cat("loop:", b.lb, ",", b.ub, ",", b.st, ":", k, ":", used);
        if (!mc::mine() || !mc::begin(id)) continue;
        mc::doing("loop");
        mc::guarded([&] {
          std::string r = used ? " %z = arith.addi %r#0, %r#1 : i32\n return %z, %r#2 : i32, tensor<4xi32>\n}" : " return %r#1, %r#2 : i32, tensor<4xi32>\n}";
          std::string prog = cat("func.func @f(%a: i32, %b: i32, %m: tensor<4xi32>) -> (i32, tensor<4xi32>) {\n %r:3 = affine.for %i = ", b.lb, " to ", b.ub, " step ", b.st, " iter_args(%x = %a, %y = %b, %t = %m) -> (i32, i32, tensor<4xi32>) {\n ", one[k], "\n }\n", r);
          int v = 0;
          V a = V::scalar(Sc::var(v++)), c = V::scalar(Sc::var(v++)), t = sym({4}, v);
          explore(*D, "loop", prog, "f", {UNROLL, CANON, FOLD, FOLDERS}, 3, {{a, c, t}});
        });
      }
  Strs inner{
      "%c = arith.index_cast %i : index to i32\n %d = arith.index_cast %j : index to i32\n %u = arith.muli %q, %c : i32\n %w = arith.addi %u, %d : i32\n affine.yield %w : i32",
      "%k = affine.apply affine_map<(d0, d1) -> ((d0 * 2 + d1) mod 4)>(%i, %j)\n %e = tensor.extract %m[%k] : tensor<4xi32>\n %w = arith.subi %e, %q : i32\n affine.yield %w : i32",
      "%w = arith.subi %x, %q : i32\n affine.yield %w : i32",
  };
  for (auto& b : bs)
    for (auto& c : bs)
      for (size_t k = 0; k < inner.size(); k++)
        for (int two = 0; two < 2; two++) {
          std::string id = cat("nest:", b.lb, ",", b.ub, ",", b.st, ":", c.lb, ",", c.ub, ",", c.st, ":", k, ":", two);
          if (!mc::mine() || !mc::begin(id)) continue;
          mc::doing("nest");
          mc::guarded([&] {
            std::string in = cat("%p = affine.for %j = ", c.lb, " to ", c.ub, " step ", c.st, " iter_args(%q = %x) -> (i32) {\n ", inner[k], "\n }\n ");
            if (two) in += cat("%p2 = affine.for %j = ", b.lb, " to ", c.ub, " iter_args(%q = %p) -> (i32) {\n %s = arith.addi %q, %a : i32\n affine.yield %s : i32\n }\n affine.yield %p2 : i32");
            else in += "affine.yield %p : i32";
            std::string prog = cat("func.func @f(%a: i32, %m: tensor<4xi32>) -> i32 {\n %r = affine.for %i = ", b.lb, " to ", b.ub, " step ", b.st, " iter_args(%x = %a) -> (i32) {\n ", in, "\n }\n return %r : i32\n}");
            int v = 0;
            V a = V::scalar(Sc::var(v++)), t = sym({4}, v);
            explore(*D, "nest", prog, "f", {UNROLL, CANON}, 2, {{a, t}});
          });
        }
  // loops that only write memory
  for (auto& b : bs)
    for (auto& c : bs) {
      std::string id = cat("store:", b.lb, ",", b.ub, ",", b.st, ":", c.lb, ",", c.ub, ",", c.st);
      if (!mc::mine() || !mc::begin(id)) continue;
      mc::doing("store");
      mc::guarded([&] {
        std::string prog = cat("func.func @f(%m: memref<8xi32>) {\n affine.for %i = ", b.lb, " to ", b.ub, " step ", b.st, " {\n %v = affine.load %m[(%i + 1) mod 8] : memref<8xi32>\n affine.for %j = ", c.lb, " to ", c.ub, " step ", c.st,
                               " {\n %w = affine.load %m[(%i * 3 + %j + 8) mod 8] : memref<8xi32>\n %s = arith.subi %w, %v : i32\n affine.store %s, %m[(%j + 2) mod 8] : memref<8xi32>\n }\n affine.store %v, %m[(%i + 4) mod 8] : memref<8xi32>\n }\n return\n}");
        std::vector<Sc> d;
        for (int k = 0; k < 8; k++) d.push_back(Sc::var(k));
        explore(*D, "store", prog, "f", {UNROLL, CANON}, 2, {{V::buffer({8}, d)}});
      });
    }
}

// Constant tensors: every short chain of inserts, extracts and reshapes.
struct Line { std::string text; };
static void folding() {
  struct Ty { std::string e, c0, k1, k2; };
  std::vector<Ty> tys{{"i32", "[3, 4]", "7", "9"}, {"f32", "[3.0, 4.0]", "7.0", "9.0"}, {"i1", "[true, false]", "true", "false"}, {"index", "[3, 4]", "7", "9"}};
  // chains of inserts into a constant (or argument) with 2 elements: each step picks its destination, scalar, index and whether it is used again
  for (auto& ty : tys)
    for (int base = 0; base < 4; base++)      // dense, splat, argument, from_elements
      for (int len = 1; len <= (T ? 4 : 3); len++) {
        std::vector<int64_t> bound;
        for (int k = 0; k < len; k++) bound.push_back(k ? 2 : 1), bound.push_back(3), bound.push_back(2);  // destination: previous / base; scalar: arg, const, other arg; index
        bound.push_back(3);  // what is returned: last, an earlier one too, an extract
        mc::product(bound, [&](const std::vector<int64_t>& p) {
          if (ty.e != "i32" && len > 2) return;
          std::string id = cat("insert:", ty.e, ":", base, ":", len, ":", [&] { std::string s; for (auto x : p) s += cat(x); return s; }());
          if (!mc::mine() || !mc::begin(id)) return;
          mc::doing("insert");
          mc::guarded([&] {
            std::string t = "tensor<2x" + ty.e + ">", b = " ";
            b += base == 0 ? "%t0 = arith.constant dense<" + ty.c0 + "> : " + t : base == 1 ? "%t0 = arith.constant dense<" + ty.k1 + "> : " + t : base == 3 ? "%t0 = tensor.from_elements %y, %x : " + t : "";
            b += "\n %k = arith.constant " + ty.k2 + (ty.e == "i1" ? "" : " : " + ty.e) + "\n %c0 = arith.constant 0 : index\n %c1 = arith.constant 1 : index\n";
            for (int k = 0; k < len; k++) {
              std::string dst = k && p[3 * k] == 0 ? cat("%t", k) : base == 2 ? "%arg" : "%t0";
              b += cat(" %t", k + 1, " = tensor.insert ", p[3 * k + 1] == 0 ? "%x" : p[3 * k + 1] == 1 ? "%k" : "%y", " into ", dst, "[%c", p[3 * k + 2], "] : ", t, "\n");
            }
            std::string prev = cat("%t", len > 1 ? len - 1 : 1);
            b += p.back() == 2 ? cat(" %e = tensor.extract %t", len, "[%c1] : ", t, "\n %z = tensor.insert %e into ", prev, "[%c0] : ", t, "\n") : "";
            std::string r1 = cat("%t", len), r2 = p.back() == 0 ? r1 : p.back() == 1 ? prev : "%z";
            std::string prog = "func.func @f(%x: " + ty.e + ", %y: " + ty.e + ", %arg: " + t + ") -> (" + t + ", " + t + ") {\n" + b + " return " + r1 + ", " + r2 + " : " + t + ", " + t + "\n}";
            std::vector<Vs> ins;
            int v = 0;
            if (ty.e == "i1") for (int q = 0; q < 4; q++) ins.push_back({V::scalar(Sc::in(q & 1 ? -1 : 0)), V::scalar(Sc::in(q & 2 ? -1 : 0)), val({2}, "i1", 0)});
            else ins.push_back({V::scalar(Sc::var(v++)), V::scalar(Sc::var(v++)), sym({2}, v)});
            explore(*D, "insert", prog, "f", {FOLD, FOLDERS, CANON}, 2, ins);
          });
        });
      }
  // inserts that cross regions, dynamic indices, higher ranks
  Strs odd{
      // the chain runs into a loop
      "%t1 = tensor.insert %x into %t0[%c0, %c1] : T\n %r = affine.for %i = 0 to 2 iter_args(%q = %y) -> (i32) {\n %t2 = tensor.insert %q into %t1[%c1, %c1] : T\n %e = tensor.extract %t2[%i, %c1] : T\n affine.yield %e : i32\n }\n return %r, %t0 : i32, T",
      "%r = affine.for %i = 0 to 3 iter_args(%q = %t0) -> (T) {\n %t2 = tensor.insert %x into %q[%c1, %c1] : T\n affine.yield %t2 : T\n }\n return %x, %r : i32, T",
      "%b = arith.cmpi slt, %x, %y : i32\n %t1 = tensor.insert %x into %t0[%c0, %c1] : T\n %r = scf.if %b -> (T) {\n %t2 = tensor.insert %y into %t1[%c1, %c0] : T\n scf.yield %t2 : T\n } else {\n scf.yield %t0 : T\n }\n return %x, %r : i32, T",
      "%t1 = tensor.insert %x into %t0[%c0, %c1] : T\n %t2 = tensor.insert %y into %t1[%n, %c0] : T\n return %y, %t2 : i32, T",
      "%t1 = tensor.insert %x into %t0[%n, %c1] : T\n %t2 = tensor.insert %y into %t1[%c0, %c0] : T\n return %y, %t2 : i32, T",
      "%t1 = tensor.insert %x into %t0[%c0, %c1] : T\n %s = arith.addi %x, %y : i32\n %t2 = tensor.insert %s into %t1[%c1, %c0] : T\n %m = arith.muli %s, %x : i32\n return %m, %t2 : i32, T",
      "%t1 = tensor.insert %x into %t0[%c0, %c1] : T\n %e = tensor.extract %t1[%c0, %c1] : T\n %t2 = tensor.insert %e into %t0[%c1, %c0] : T\n return %e, %t2 : i32, T",
      "%t1 = tensor.insert %x into %t0[%c0, %c1] : T\n %e = tensor.extract %t1[%c1, %n] : T\n %t2 = tensor.insert %e into %t1[%c1, %c0] : T\n return %e, %t2 : i32, T",
      "%t1 = tensor.insert %x into %t0[%c0, %c1] : T\n %t2 = tensor.insert %y into %t1[%c1, %c0] : T\n %t3 = tensor.insert %x into %t2[%c0, %c0] : T\n %t4 = tensor.insert %y into %t3[%c1, %c1] : T\n return %y, %t4 : i32, T",
      "%t1 = tensor.insert %x into %t0[%c0, %c1] : T\n %k = tensor.collapse_shape %t1 [[0, 1]] : T into tensor<4xi32>\n %e = tensor.extract %k[%c1] : tensor<4xi32>\n return %e, %t1 : i32, T",
      "%k = tensor.collapse_shape %t0 [[0, 1]] : T into tensor<4xi32>\n %k1 = tensor.insert %x into %k[%c1] : tensor<4xi32>\n %e = tensor.extract %k1[%n] : tensor<4xi32>\n return %e, %t0 : i32, T",
      "%k = tensor.collapse_shape %t0 [[0, 1]] : T into tensor<4xi32>\n %q = tensor.expand_shape %k [[0, 1]] output_shape [2, 2] : tensor<4xi32> into T\n %q1 = tensor.insert %y into %q[%c1, %c1] : T\n return %x, %q1 : i32, T",
      "%m = tensor.empty() : tensor<2x1x2xi32>\n %k = tensor.collapse_shape %m [[0, 1], [2]] : tensor<2x1x2xi32> into T\n %t1 = tensor.insert %x into %k[%c0, %c1] : T\n %e = tensor.extract %t1[%c0, %c1] : T\n return %e, %t0 : i32, T",
      // the constant is written outside, the scalar is defined inside the loop
      "%r = affine.for %i = 0 to 2 iter_args(%q = %y) -> (i32) {\n %s = arith.addi %q, %x : i32\n %t1 = tensor.insert %s into %t0[%c0, %c1] : T\n %t2 = tensor.insert %q into %t1[%c1, %c1] : T\n %e = tensor.extract %t2[%i, %c1] : T\n affine.yield %e : i32\n }\n return %r, %t0 : i32, T",
      // a tensor in two results
      "%t1 = tensor.insert %x into %t0[%c0, %c1] : T\n %t2 = tensor.insert %y into %t1[%c1, %c1] : T\n %s = arith.addi %t1, %t2 : T\n return %x, %s : i32, T",
      "%t1 = tensor.insert %x into %t0[%c0, %c1] : T\n %s = arith.addi %t1, %t1 : T\n return %x, %s : i32, T",
      // the one user of the first insert writes another tensor
      "%t1 = tensor.insert %x into %t0[%c0, %c1] : T\n %s = tensor.extract %t1[%c0, %c1] : T\n %t2 = tensor.insert %s into %g[%c1, %c1] : T\n return %x, %t2 : i32, T",
  };
  for (size_t k = 0; k < odd.size(); k++)
    for (std::string c : {"dense<[[1, 2], [3, 4]]>", "dense<5>", "arg"}) {
      std::string id = cat("fold:", k, ":", c);
      if (!mc::mine() || !mc::begin(id)) continue;
      mc::doing("fold");
      mc::guarded([&] {
        std::string b;
        for (size_t q = 0; q < odd[k].size(); q++) b += odd[k][q] == 'T' ? "tensor<2x2xi32>" : std::string(1, odd[k][q]);
        std::string prog = "func.func @f(%x: i32, %y: i32, %n: index, %g: tensor<2x2xi32>) -> (i32, tensor<2x2xi32>) {\n %c0 = arith.constant 0 : index\n %c1 = arith.constant 1 : index\n " + (c == "arg" ? std::string("%t0 = tensor.cast %g : tensor<2x2xi32> to tensor<2x2xi32>") : "%t0 = arith.constant " + c + " : tensor<2x2xi32>") + "\n " + b + "\n}";
        std::vector<Vs> ins;
        int v = 0;
        for (int n = 0; n < 2; n++) {
          v = 0;
          if (odd[k].find("cmpi") != std::string::npos) ins.push_back({V::scalar(Sc::in(n)), V::scalar(Sc::in(1 - n * 2)), V::scalar(Sc::in(n)), val({2, 2}, "i32", 1)});
          else ins.push_back({V::scalar(Sc::var(v++)), V::scalar(Sc::var(v++)), V::scalar(Sc::in(n)), sym({2, 2}, v)});
        }
        explore(*D, "fold", prog, "f", {FOLD, FOLDERS, CANON, UNROLL}, 3, ins);
      });
    }
  // slices of splats and elements of slices
  for (auto& d : std::vector<Dims>{{4}, {2, 3}, {1, 3}, {2, 1, 2}}) {
    std::vector<int64_t> bound;
    for (auto x : d) bound.push_back(x), bound.push_back(x), bound.push_back(2);
    bound.push_back(3);
    bound.push_back(2);
    mc::product(bound, [&](const std::vector<int64_t>& p) {
      Dims off, size, st;
      for (size_t k = 0; k < d.size(); k++) {
        off.push_back(p[3 * k]); size.push_back(p[3 * k + 1] + 1); st.push_back(p[3 * k + 2] + 1);
        if (off[k] + (size[k] - 1) * st[k] >= d[k]) return;
      }
      int src = p[3 * d.size()], rr = p[3 * d.size() + 1];
      Dims res;
      for (size_t k = 0; k < d.size(); k++) if (!(rr && size[k] == 1)) res.push_back(size[k]);
      std::string id = cat("slice:", shp(d), ":", [&] { std::string s; for (auto x : p) s += cat(x); return s; }());
      if (!mc::mine() || !mc::begin(id)) return;
      mc::doing("slice");
      mc::guarded([&] {
        auto l = [](const Dims& v) { std::string s = "["; for (size_t k = 0; k < v.size(); k++) s += cat(k ? ", " : "", v[k]); return s + "]"; };
        std::string body = " %c0 = arith.constant 0 : index\n";
        std::string s = src == 0 ? "%a" : src == 1 ? "%s" : "%k";
        if (src == 1) body += " %s = tensor.splat %x : " + tty(d, "i32") + "\n";
        if (src == 2) { body += " %k = arith.constant dense<"; std::function<std::string(size_t, int64_t)> nest = [&](size_t q, int64_t base) -> std::string { if (q == d.size()) return cat(base); std::string o = "["; for (int64_t z = 0; z < d[q]; z++) o += (z ? ", " : "") + nest(q + 1, base * 10 + z + 1); return o + "]"; }; body += nest(0, 0) + "> : " + tty(d, "i32") + "\n"; }
        body += " %e = tensor.extract_slice " + s + l(off) + l(size) + l(st) + " : " + tty(d, "i32") + " to " + tty(res, "i32") + "\n";
        std::string idx;
        for (size_t k = 0; k < res.size(); k++) idx += (k ? ", " : "") + std::string(res[k] > 1 ? "%n" : "%c0");
        body += " %v = tensor.extract %e[" + idx + "] : " + tty(res, "i32") + "\n return %v, %e : i32, " + tty(res, "i32") + "\n}";
        int v = 0;
        std::vector<Vs> ins;
        for (int n = 0; n < 2; n++) { v = 0; V a = sym(d, v); ins.push_back({a, V::scalar(Sc::var(v++)), V::scalar(Sc::in(n))}); }
        explore(*D, "slice", "func.func @f(%a: " + tty(d, "i32") + ", %x: i32, %n: index) -> (i32, " + tty(res, "i32") + ") {\n" + body, "f", {FOLD, FOLDERS}, 2, ins);
      });
    });
  }
}

// Tensors -> scalars.  Tensors that cross the signature are flattened in row-major order, like tensor.from_elements.
static std::vector<Sc> flat(const Vs& vs) { std::vector<Sc> r; for (auto& v : vs) for (auto& s : v.flat()) r.push_back(s); return r; }
static void t2sCase(const std::string& id, const std::string& prog, int max, const std::vector<Vs>& ins, const std::vector<PassStep>& before = {}) {
  if (!mc::mine() || !mc::begin(id)) return;
  std::string fam = id.substr(0, id.find(':'));
  mc::doing(fam);
  mc::guarded([&] {
    auto m = D->need(prog);
    if (!m) return;
    OwningOpRef<ModuleOp> c(m->clone());
    mc::state();
    for (auto& s : before) if (!D->run(*c, s.add)) { mc::violate(fam + ":before", cat(id, ": ", s.name, " rejects: ", D->diag, "\n", prog)); return; }
    std::string mid = text(*c);
    if (!D->run(*c, scalars(max).add)) { mc::violate(fam + ":fails", cat(id, ": ", D->diag, "\n", mid)); return; }
    if (failed(verify(*c))) { mc::violate(fam + ":invalid", cat(id, ": ", D->diag, "\n", mid, "\nafter:\n", text(*c))); return; }
    auto fn = c->lookupSymbol<func::FuncOp>("f");
    auto res = fn.getResultTypes();
    for (auto& in : ins) {
      Outcome a = exec(*m, "f", in);
      if (a.kind == Outcome::UNSUP) { mc::violate(fam + ":harness", cat(a.why, "\n", prog)); return; }
      if (a.kind == Outcome::UNDEF) { mc::count("undefined inputs skipped"); continue; }
      Vs args;
      for (auto& v : in) {
        if (!v.shape.empty() || (args.size() < fn.getNumArguments() && !isa<RankedTensorType>(fn.getArgument(args.size()).getType())))
          if (args.size() >= fn.getNumArguments() || !isa<RankedTensorType>(fn.getArgument(args.size()).getType())) { for (auto& s : v.flat()) args.push_back(V::scalar(s)); continue; }
        args.push_back(v);
      }
      if (args.size() != fn.getNumArguments()) { mc::violate(fam + ":signature", cat(id, ": ", text(fn))); return; }
      Outcome b = exec(*c, "f", args);
      mc::trace();
      mc::eval();
      std::string w;
      if (b.kind == Outcome::UNSUP) w = "cannot interpret: " + b.why;
      else if (b.kind == Outcome::UNDEF) w = "undefined behaviour: " + b.why;
      else {
        auto x = flat(a.vals), y = flat(b.vals);
        if (x.size() != y.size()) w = "result size changed";
        for (size_t k = 0; k < x.size() && w.empty(); k++) if (!y[k].refines(x[k])) w = cat("element ", k, " is ", y[k].str(), ", want ", x[k].str());
      }
      if (!w.empty()) { mc::violate(fam, cat(id, ": ", w, "\n", mid, "\nafter:\n", text(*c))); return; }
      mc::outcome(cat(fam, show(a.vals)));
    }
    (void)res;
  });
}
static void toScalars() {
  auto idx = [](const Dims& p) { std::string s; for (size_t k = 0; k < p.size(); k++) s += cat(k ? ", " : "", "%c", p[k]); return s; };
  std::string cs;
  for (int k = 0; k < 6; k++) cs += cat(" %c", k, " = arith.constant ", k, " : index\n");
  auto dense = [](const Dims& d) {
    int n = 0;
    std::function<std::string(size_t)> nest = [&](size_t q) -> std::string { if (q == d.size()) return cat(++n); std::string o = "["; for (int64_t z = 0; z < d[q]; z++) o += (z ? ", " : "") + nest(q + 1); return o + "]"; };
    return "dense<" + nest(0) + ">";
  };
  for (auto& d : shapes()) {
    std::string t = tty(d, "i32");
    int64_t n = vol(d);
    if (n == 0 && d.size() > 1) continue;
    for (int src = 0; src < 4; src++)        // argument, constant, from_elements, computed tensor
      for (int max : {8, 2})
        for (int64_t i = -1; i < n; i++)     // insert at i (or none)
          for (int64_t j = -1; j < n; j++)   // extract at j (or return the tensor)
            for (int two = 0; two < (i >= 0 ? 3 : 1); two++) {   // also an insert at another place, or the tensor used in a tensor operation
              if (two && j >= 0 && j != 0) continue;
              std::string b = cs, x = "%t";
              if (src == 0) x = "%a";
              if (src == 1) b += n ? " %t = arith.constant " + dense(d) + " : " + t + "\n" : " %t = arith.constant dense<> : " + t + "\n";
              if (src == 2) { b += " %t = tensor.from_elements"; for (int64_t k = 0; k < n; k++) b += (k ? ", " : " ") + std::string(k % 2 ? "%x" : "%y"); b += " : " + t + "\n"; }
              if (src == 3) b += " %t = arith.addi %a, %a : " + t + "\n";
              if (i >= 0) { b += " %u = tensor.insert %x into " + x + "[" + idx(at(d, i)) + "] : " + t + "\n"; x = "%u"; }
              if (two == 1) { b += " %w = tensor.insert %y into " + x + "[" + idx(at(d, n - 1 - i)) + "] : " + t + "\n"; x = "%w"; }
              if (two == 2) { b += " %w = arith.muli " + x + ", %a : " + t + "\n"; x = "%w"; }
              std::string r = t;
              if (j >= 0) { b += " %e = tensor.extract " + x + "[" + idx(at(d, j)) + "] : " + t + "\n"; x = "%e"; r = "i32"; }
              int v = 0;
              V a = sym(d, v), p = V::scalar(Sc::var(v++)), q = V::scalar(Sc::var(v++));
              t2sCase(cat("scalars:", shp(d), ":", src, ":", max, ":", i, ":", j, ":", two), "func.func @f(%x: i32, %a: " + t + ", %y: i32) -> " + r + " {\n" + b + " return " + x + " : " + r + "\n}", max, {{p, a, q}});
            }
    if (n == 0) continue;
    // control flow that carries tensors
    std::string c1 = idx(at(d, n - 1)), c0 = idx(at(d, 0)), cm = idx(at(d, n / 2));
    Strs flow{
        " %r = scf.for %i = %c0 to %c3 step %c1 iter_args(%q = %a) -> (T) {\n %e = tensor.extract %q[L] : T\n %s = arith.addi %e, %x : i32\n %u = tensor.insert %s into %q[F] : T\n %g = tensor.extract %u[M] : T\n %w = tensor.insert %g into %u[L] : T\n scf.yield %w : T\n }\n return %r : T\n}",
        " %b = arith.cmpi eq, %x, %y : i32\n %r = scf.if %b -> (T) {\n %u = tensor.insert %x into %a[L] : T\n scf.yield %u : T\n } else {\n %e = tensor.extract %a[M] : T\n %u = tensor.insert %e into %a[F] : T\n scf.yield %u : T\n }\n return %r : T\n}",
        " %r:2 = scf.while (%q = %a, %k = %c0) : (T, index) -> (T, index) {\n %b = arith.cmpi slt, %k, %c2 : index\n scf.condition(%b) %q, %k : T, index\n } do {\n ^bb0(%q: T, %k: index):\n %e = tensor.extract %q[L] : T\n %u = tensor.insert %e into %q[F] : T\n %w = tensor.insert %y into %u[L] : T\n %k2 = arith.addi %k, %c1 : index\n scf.yield %w, %k2 : T, index\n }\n return %r#0 : T\n}",
        " %r = affine.for %i = 0 to 3 iter_args(%q = %a) -> (T) {\n %e = tensor.extract %q[L] : T\n %s = arith.addi %e, %x : i32\n %u = tensor.insert %s into %q[F] : T\n affine.yield %u : T\n }\n return %r : T\n}",
    };
    for (size_t k = 0; k < flow.size(); k++)
      for (int max : {8, 2}) {
        std::string b;
        for (char ch : flow[k]) b += ch == 'T' ? t : ch == 'L' ? c1 : ch == 'F' ? c0 : ch == 'M' ? cm : std::string(1, ch);
        int v = 0;
        std::vector<Vs> ins;
        if (k == 1) for (int z = 0; z < 2; z++) ins.push_back({V::scalar(Sc::in(3)), val(d, "i32", 2), V::scalar(Sc::in(z ? 3 : 4))});
        else { V a = sym(d, v), p = V::scalar(Sc::var(v++)), q = V::scalar(Sc::var(v++)); ins.push_back({p, a, q}); }
        t2sCase(cat("flow:", shp(d), ":", k, ":", max), "func.func @f(%x: i32, %a: " + t + ", %y: i32) -> " + t + " {\n" + cs + b, max, ins);
      }
    // the documented preparation: elementwise operations become loops, the loops are unrolled
    for (std::string op : {"subi", "muli"})
      for (int max : {8, 2}) {
        int v = 0;
        V a = sym(d, v), b = sym(d, v);
        t2sCase(cat("prepared:", shp(d), ":", op, ":", max), "func.func @f(%a: " + t + ", %b: " + t + ") -> " + t + " {\n %r = arith." + op + " %a, %b : " + t + "\n %s = arith.addi %r, %b : " + t + "\n return %s : " + t + "\n}", max, {{a, b}}, {ELEM, UNROLL, CANON});
      }
  }
}

// linalg.generic on tensors -> loops: all small maps and bodies.
static void generics() {
  struct M { std::string map; Dims (*shape)(const Dims&); };
  auto run = [&](int nl, const Dims& r, const Strs& inMaps, const Strs& outMaps, const Strs& bodies) {
    auto shapeOf = [&](const std::string& m) {  // results are "dK" or numbers or sums
      Dims s;
      size_t a = m.find("-> (") + 4, e = m.rfind(')');
      std::string x = m.substr(a, e - a), cur;
      for (size_t k = 0; k <= x.size(); k++) {
        if (k < x.size() && x[k] != ',') { if (x[k] != ' ') cur += x[k]; continue; }
        if (cur.empty()) continue;
        if (cur.size() == 2 && cur[0] == 'd') s.push_back(r[cur[1] - '0']);
        else if (cur.find('+') != std::string::npos) { int64_t t = 1; for (size_t q = 0; q + 1 < cur.size(); q++) if (cur[q] == 'd') t += r[cur[q + 1] - '0'] - 1; s.push_back(t); }
        else s.push_back(atoi(cur.c_str()) + 1);
        cur.clear();
      }
      return s;
    };
    for (auto& m1 : inMaps)
      for (auto& m2 : inMaps)
        for (auto& mo : outMaps)
          for (size_t b = 0; b < bodies.size(); b++) {
            std::string id = cat("generic:", shp(r), ":", m1, ":", m2, ":", mo, ":", b);
            if (!mc::mine()) continue;
            // every loop must be bounded by some operand
            bool ok = true;
            for (int k = 0; k < nl; k++) {
              bool have = false;
              for (auto* m : {&m1, &m2, &mo}) { if (m == &m2 && bodies[b].find("SCALAR") == 0) continue; auto x = m->substr(m->find("->")); for (size_t q = 0; q + 1 < x.size(); q++) if (x[q] == 'd' && x[q + 1] == '0' + k && (x[q + 2] == ',' || x[q + 2] == ')') && (x[q - 1] == '(' || x[q - 1] == ' ') && x.find('+') == std::string::npos) have = true; }
              ok = ok && have;
            }
            if (!ok || !mc::begin(id)) continue;
            mc::doing("generic");
            mc::guarded([&] {
              Dims s1 = shapeOf(m1), s2 = shapeOf(m2), so = shapeOf(mo);
              std::string it;
              for (int k = 0; k < nl; k++) it += cat(k ? ", " : "", mo.substr(mo.find("->")).find(cat("d", k)) != std::string::npos ? "\"parallel\"" : "\"reduction\"");
              std::string t1 = tty(s1, "f32"), t2 = tty(s2, "f32"), to = tty(so, "f32");
              bool two = bodies[b].find("TWO") != std::string::npos, sc = bodies[b].find("SCALAR") != std::string::npos;
              std::string body = bodies[b].substr(bodies[b].find('|') + 1);
              std::string prog = "func.func @f(%a: " + t1 + ", %b: " + t2 + ", %c: " + to + ", %s: f32) -> " + (two ? "(" + to + ", " + to + ")" : to) + " {\n %r" + (two ? ":2" : "") + " = linalg.generic {indexing_maps = [affine_map<" + m1 + ">, affine_map<" + (sc ? m2.substr(0, m2.find("->")) + "-> ()" : m2) + ">, affine_map<" + mo + ">" + (two ? ", affine_map<" + mo + ">" : "") + "], iterator_types = [" + it + "]} ins(%a, " + (sc ? "%s : " + t1 + ", f32" : "%b : " + t1 + ", " + t2) +
                                 ") outs(%c" + (two ? ", %c : " + to + ", " + to : " : " + to) + ") {\n ^bb0(%x: f32, %y: f32, %o: f32" + (two ? ", %p: f32" : "") + "):\n " + body + "\n } -> " + (two ? "(" + to + ", " + to + ")" : to) + "\n return " + (two ? "%r#0, %r#1 : " + to + ", " + to : "%r : " + to) + "\n}";
              int v = 0;
              V a = sym(s1, v), bb = sym(s2, v), c = sym(so, v), s = V::scalar(Sc::var(v++));
              explore(*D, "generic", prog, "f", {LINALG, CANON, UNROLL}, nl == 3 && !T ? 1 : 3, {{a, bb, c, s}});
            });
          }
  };
  Strs bodies{"|%m = arith.mulf %x, %y : f32\n %n = arith.addf %o, %m : f32\n linalg.yield %n : f32", "|%m = arith.subf %y, %x : f32\n linalg.yield %m : f32", "|linalg.yield %o : f32", "|%m = arith.subf %s, %o : f32\n %n = arith.mulf %m, %y : f32\n linalg.yield %n : f32",
              "TWO|%m = arith.mulf %x, %y : f32\n %n = arith.addf %o, %m : f32\n %q = arith.subf %p, %x : f32\n linalg.yield %n, %q : f32, f32", "TWO|%n = arith.addf %o, %x : f32\n %q = arith.subf %p, %o : f32\n linalg.yield %q, %n : f32, f32",
              "SCALAR|%m = arith.mulf %x, %y : f32\n %n = arith.addf %o, %m : f32\n linalg.yield %n : f32",
              "|%i = linalg.index 0 : index\n %j = arith.index_cast %i : index to i32\n %k = arith.sitofp %j : i32 to f32\n %m = arith.mulf %x, %k : f32\n %n = arith.addf %o, %m : f32\n linalg.yield %n : f32"};
  run(1, {3}, {"(d0) -> (d0)", "(d0) -> ()", "(d0) -> (0)"}, {"(d0) -> (d0)", "(d0) -> ()"}, bodies);
  run(1, {1}, {"(d0) -> (d0)", "(d0) -> ()", "(d0) -> (0)"}, {"(d0) -> (d0)", "(d0) -> ()"}, bodies);
  run(0, {}, {"() -> ()"}, {"() -> ()"}, {bodies[0], bodies[1], bodies[2], bodies[3], bodies[4]});
  Strs two{"(d0, d1) -> (d0, d1)", "(d0, d1) -> (d1, d0)", "(d0, d1) -> (d0)", "(d0, d1) -> (d1)", "(d0, d1) -> (0, d1)", "(d0, d1) -> ()", "(d0, d1) -> (d0 + d1)", "(d0, d1) -> (d1, d1)"};
  Strs twoO{"(d0, d1) -> (d0, d1)", "(d0, d1) -> (d1, d0)", "(d0, d1) -> (d0)", "(d0, d1) -> (d1)", "(d0, d1) -> ()"};
  run(2, {2, 3}, two, twoO, bodies);
  run(2, {1, 2}, two, twoO, {bodies[0], bodies[4]});
  Strs three{"(d0, d1, d2) -> (d0, d2)", "(d0, d1, d2) -> (d2, d1)", "(d0, d1, d2) -> (d1, d0, d2)", "(d0, d1, d2) -> (d2, d0, d1)", "(d0, d1, d2) -> (d1)", "(d0, d1, d2) -> (d0, d1)"};
  Strs threeO{"(d0, d1, d2) -> (d0, d1)", "(d0, d1, d2) -> (d2, d0)", "(d0, d1, d2) -> (d1)", "(d0, d1, d2) -> (d2, d1, d0)"};
  run(3, {2, 2, 3}, three, threeO, {bodies[0], bodies[3]});
}

// Calls of activation functions are inlined.
static void inlining() {
  Strs fns{
      "func.func private @NAME(%a: tensor<2xi32>) -> tensor<2xi32> {\n %z = arith.constant dense<0> : tensor<2xi32>\n %r = arith.maxsi %a, %z : tensor<2xi32>\n return %r : tensor<2xi32>\n}\n",
      "func.func private @NAME(%a: tensor<2xi32>) -> tensor<2xi32> {\n return %a : tensor<2xi32>\n}\n",
      "func.func private @NAME(%a: tensor<2xi32>) -> tensor<2xi32> {\n %r = func.call @relu_1(%a) : (tensor<2xi32>) -> tensor<2xi32>\n %s = arith.addi %r, %a : tensor<2xi32>\n return %s : tensor<2xi32>\n}\n",
  };
  Strs names{"relu", "relu_0", "relu_1", "relu_", "relu_1x", "silu", "relu6"};
  for (auto& n : names)
    for (size_t k = 0; k < fns.size(); k++)
      for (int calls = 0; calls < 4; calls++) {
        if (k == 2 && n == "relu_1") continue;
        if (!mc::mine() || !mc::begin(cat("inline:", n, ":", k, ":", calls))) continue;
        mc::doing("inline");
        mc::guarded([&] {
          std::string f = fns[k];
          f.replace(f.find("NAME"), 4, n);
          std::string prog = f;
          if (n != "relu_1") { f = fns[0]; f.replace(f.find("NAME"), 4, "relu_1"); prog += f; }
          std::string t = "tensor<2xi32>", call = " = func.call @" + n + "(%", sig = " : (" + t + ") -> " + t + "\n";
          prog += "func.func @f(%x: " + t + ", %b: i1) -> " + t + " {\n";
          if (calls == 0) prog += " %r" + call + "x)" + sig;
          if (calls == 1) prog += " %p" + call + "x) {domain_lower = -3.0 : f64}" + sig + " %q = arith.subi %p, %x : " + t + "\n %s" + call + "q)" + sig + " %r = arith.addi %s, %p : " + t + "\n";
          if (calls == 2) prog += " %r = affine.for %i = 0 to 3 iter_args(%c = %x) -> (" + t + ") {\n %p" + call + "c)" + sig + " %q = arith.subi %p, %x : " + t + "\n affine.yield %q : " + t + "\n }\n";
          if (calls == 3) prog += " %r = scf.if %b -> (" + t + ") {\n %p" + call + "x)" + sig + " scf.yield %p : " + t + "\n } else {\n %p = func.call @relu_1(%x)" + sig + " scf.yield %p : " + t + "\n }\n";
          prog += " return %r : " + t + "\n}";
          std::vector<Vs> ins;
          for (int s = 0; s < 6; s++) ins.push_back({val({2}, "i32", s), V::scalar(Sc::in(s % 2 ? -1 : 0))});
          explore(*D, "inline", prog, "f", {INLINE, CANON}, 2, ins);
        });
      }
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  T = mc::thorough();
  DialectRegistry reg;
  reg.insert<arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, math::MathDialect, affine::AffineDialect, linalg::LinalgDialect, memref::MemRefDialect, tensor_ext::TensorExtDialect, bufferization::BufferizationDialect>();
  func::registerInlinerExtension(reg);
  Driver d(reg);
  D = &d;
  elementwise();
  loops();
  folding();
  toScalars();
  generics();
  inlining();
  return mc::finish();
}
