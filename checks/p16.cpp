// P16: memory and tensor forwarding, unused-memory removal, copy expansion, global replacement, loop-body extraction.
#include "lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.h"
#include "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.h"
#include "lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.h"
#include "lib/Transforms/MemrefToArith/MemrefToArith.h"
#include "lib/Transforms/RemoveUnusedPureCall/RemoveUnusedPureCall.h"
#include "lib/Transforms/UnusedMemRef/UnusedMemRef.h"
#include "passmc.h"
using namespace pm;
using namespace mlir::heir;

static V ix(int64_t v) { return V::scalar(Sc::in(v)); }
static V sym(int n) { return V::scalar(Sc::var(n)); }
static V bit(bool b) { return V::scalar(Sc::in(b ? -1 : 0)); }
static V symBuf(std::vector<int64_t> sh, int base) { int64_t n = 1; for (auto s : sh) n *= s; std::vector<Sc> d; for (int64_t k = 0; k < n; k++) d.push_back(Sc::var(base + k)); return V::buffer(sh, d); }
static V symTen(std::vector<int64_t> sh, int base) { V v = symBuf(sh, base); return V::tensor(v.shape, *v.d); }
// a declared function writes fresh symbols into the buffers it is given
static void calls(interp::Machine& M) {
  auto n = std::make_shared<int>(500);
  M.ext = [n](interp::Machine& m, Operation* o, const Vs& in, Vs& out) {
    if (!isa<func::FuncOp>(o)) return false;
    auto name = cast<func::FuncOp>(o).getName();
    for (auto v : in) {
      if (!v.mem) continue;
      auto snap = v.flat();
      m.effects.back().second.push_back(V::tensor({(int64_t)snap.size()}, snap));
      if (name == "g") v.each([&](llvm::ArrayRef<int64_t> i) { v.set(i, Sc::var((*n)++)); });
    }
    m.effects.back().second.erase(m.effects.back().second.begin(), m.effects.back().second.begin() + in.size());
    return true;
  };
}
static std::string key(const std::string& id) { return id.substr(0, id.find(':')); }

struct Op { std::string text; int res; };  // res: number of i32 results, named %rN

// Every sequence of length n over the alphabet; result names are made unique.
template <class F>
static void sequences(const std::vector<std::string>& alpha, int n, F f) {
  std::vector<int64_t> b(n, alpha.size());
  mc::product(b, f);
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, memref::MemRefDialect>();
  Driver d(reg);

  // ---- stores and loads: @ becomes a fresh number, $ a fresh value argument, R the result
  std::vector<std::string> alpha = {
      "memref.store $, %m[%c0] : memref<2xi32>", "memref.store $, %m[%c1] : memref<2xi32>", "memref.store $, %m[%i] : memref<2xi32>", "memref.store $, %m[%j] : memref<2xi32>",
      "R = memref.load %m[%c0] : memref<2xi32>", "R = memref.load %m[%i] : memref<2xi32>", "R = memref.load %m[%j] : memref<2xi32>",
      "affine.store $, %m[%i] : memref<2xi32>", "R = affine.load %m[1] : memref<2xi32>",
      "func.call @g(%m) : (memref<2xi32>) -> ()", "func.call @h(%m) : (memref<2xi32>) -> ()",
      "memref.copy %n, %m : memref<2xi32> to memref<2xi32>", "memref.copy %m, %n : memref<2xi32> to memref<2xi32>",
      "memref.store $, %n[%i] : memref<2xi32>", "R = memref.load %n[%c0] : memref<2xi32>",
      "memref.store $, %v[%c0] : memref<?xi32>", "R = memref.load %v[%i] : memref<?xi32>",
      "scf.if %b {\n memref.store $, %m[%c0] : memref<2xi32>\n}", "R = scf.if %b -> i32 {\n %q@ = memref.load %m[%c0] : memref<2xi32>\n scf.yield %q@ : i32\n} else {\n scf.yield $ : i32\n}"};
  std::vector<std::string> small = {alpha[0], alpha[2], alpha[3], alpha[4], alpha[5], alpha[6], alpha[8], alpha[9], alpha[15], alpha[1]};
  auto build = [&](const std::vector<std::string>& al, const std::vector<int64_t>& s, bool local) {
    std::string body, rets, types;
    for (size_t k = 0; k < s.size(); k++) {
      std::string t = al[s[k]];
      for (size_t p; (p = t.find('@')) != std::string::npos && t.substr(p, 2) != "@g" && t.substr(p, 2) != "@h";) t.replace(p, 1, std::to_string(k));
      for (size_t p; (p = t.find('$')) != std::string::npos;) t.replace(p, 1, cat("%x", k));
      if (t[0] == 'R') { rets += cat(rets.empty() ? "" : ", ", "%r", k); types += cat(types.empty() ? "" : ", ", "i32"); t.replace(0, 1, cat("%r", k)); }
      body += "  " + t + "\n";
    }
    std::string xs;
    for (size_t k = 0; k < s.size(); k++) xs += cat(", %x", k, ": i32");
    return cat("func.func private @g(memref<2xi32>)\nfunc.func private @h(memref<2xi32>)\nfunc.func @f(", local ? "" : "%m: memref<2xi32>, ", "%n: memref<2xi32>, %i: index, %j: index, %b: i1", xs, ") -> (", types, ") {\n  %c0 = arith.constant 0 : index\n  %c1 = arith.constant 1 : index\n",
               local ? "  %m = memref.alloc() : memref<2xi32>\n  memref.store %x0, %m[%c0] : memref<2xi32>\n  memref.store %x0, %m[%c1] : memref<2xi32>\n" : "", "  %v = memref.cast %m : memref<2xi32> to memref<?xi32>\n", body, "  return ", rets, rets.empty() ? "" : " : ", types, "\n}\n");
  };
  auto inputs = [&](int n, bool local) {
    std::vector<Vs> r;
    for (int c = 0; c < 8; c++) {
      Vs v;
      if (!local) v.push_back(symBuf({2}, 100));
      v.push_back(symBuf({2}, 110));
      v.push_back(ix(c & 1)); v.push_back(ix(c >> 1 & 1)); v.push_back(bit(c >> 2));
      for (int k = 0; k < n; k++) v.push_back(sym(k));
      r.push_back(v);
    }
    return r;
  };
  auto forward = [](OpPassManager& p) { p.addPass(createForwardStoreToLoad()); };
  auto forwardUnused = [](OpPassManager& p) { p.addPass(createForwardStoreToLoad()); p.addNestedPass<func::FuncOp>(createRemoveUnusedMemRef()); };
  for (int local = 0; local < 2; local++)
    for (int pass = 0; pass < 2; pass++)
      for (int n = 1; n <= 3; n++) {
        auto in = inputs(n, local);
        sequences(alpha, n, [&](const std::vector<int64_t>& s) {
          if (!mc::mine() || !mc::begin(cat("store:", local, pass, ":", mc::join(s)))) return;
          if (pass == 1 && n == 3 && !T && s[0] > 8) return;
          mc::doing("forwarding stores to loads");
          preserve(d, pass ? "store:unused" : "store", build(alpha, s, local), "f", pass ? forwardUnused : forward, in, false, calls);
        });
      }
  for (int n = 4; n <= (T ? 5 : 4); n++) {
    auto in = inputs(n, false);
    sequences(small, n, [&](const std::vector<int64_t>& s) {
      if (!mc::mine() || !mc::begin(cat("store:deep:", mc::join(s)))) return;
      mc::doing("forwarding stores to loads");
      preserve(d, "store", build(small, s, false), "f", forward, in, false, calls);
    });
  }

  // ---- inserts and extracts
  auto fie = [](OpPassManager& p) { p.addPass(createForwardInsertToExtract()); };
  struct Start { std::string name, def; };
  for (int rank = 1; rank <= 2; rank++) {
    std::string ty = rank == 1 ? "tensor<3xi32>" : "tensor<2x3xi32>";
    std::vector<Start> starts = {{"arg", ""}, {"splat", cat("%t0 = arith.constant dense<7> : ", ty)},
                                 {"dense", cat("%t0 = arith.constant dense<", rank == 1 ? "[1, 2, 3]" : "[[1, 2, 3], [4, 5, 6]]", "> : ", ty)},
                                 {"elements", cat("%t0 = tensor.from_elements ", rank == 1 ? "%y0, %y1, %y2" : "%y0, %y1, %y2, %y3, %y4, %y5", " : ", ty)}};
    std::vector<std::string> idx;
    if (rank == 1) idx = {"%c0", "%c1", "%c2", "%i", "%j"};
    else for (auto a : {"%c0", "%c1", "%i"}) for (auto b : {"%c0", "%c2", "%j"}) idx.push_back(cat(a, ", ", b));
    for (auto& st : starts)
      for (int n = 0; n <= (rank == 1 ? 3 : T ? 3 : 2); n++) {
        std::vector<int64_t> b(n + 1, idx.size());
        mc::product(b, [&](const std::vector<int64_t>& s) {
          if (!mc::mine() || !mc::begin(cat("insert:", rank, st.name, ":", mc::join(s)))) return;
          mc::doing("forwarding inserts to extracts");
          std::string body;
          for (int k = 0; k < n; k++) body += cat("  %t", k + 1, " = tensor.insert %x", k, " into %t", k, "[", idx[s[k]], "] : ", ty, "\n");
          std::string prog = cat("func.func @f(", st.def.empty() ? cat("%t0: ", ty, ", ") : "", "%i: index, %j: index, %x0: i32, %x1: i32, %x2: i32, %y0: i32, %y1: i32, %y2: i32, %y3: i32, %y4: i32, %y5: i32) -> (i32, ", ty, ") {\n  %c0 = arith.constant 0 : index\n  %c1 = arith.constant 1 : index\n  %c2 = arith.constant 2 : index\n  ",
                                 st.def, "\n", body, "  %e = tensor.extract %t", n, "[", idx[s[n]], "] : ", ty, "\n  return %e, %t", n, " : i32, ", ty, "\n}\n");
          std::vector<Vs> in;
          for (int i = 0; i < (rank == 1 ? 3 : 2); i++) for (int j = 0; j < 3; j++) {
            Vs v;
            if (st.def.empty()) v.push_back(symTen(rank == 1 ? std::vector<int64_t>{3} : std::vector<int64_t>{2, 3}, 100));
            v.push_back(ix(i)); v.push_back(ix(j));
            for (int k = 0; k < 9; k++) v.push_back(sym(k));
            in.push_back(v);
          }
          preserve(d, "insert", prog, "f", fie, in);
        });
      }
  }

  // ---- slices
  auto fis = [](OpPassManager& p) { p.addPass(createForwardInsertSliceToExtractSlice()); };
  struct Sl { std::string off, sizes, strides, type; std::vector<int64_t> shape; };
  std::vector<Sl> one, two;
  for (auto off : {"0", "1", "2", "3", "%i"})
    for (int sz = 1; sz <= 3; sz++) for (int st = 1; st <= 2; st++) {
      if (sz == 1 && st == 2) continue;
      int o = off[0] == '%' ? 0 : atoi(off);
      if (o + (sz - 1) * st >= 4) continue;
      one.push_back({off, cat(sz), cat(st), cat("tensor<", sz, "xi32>"), {sz}});
      if (sz == 1) one.push_back({off, "1", "1", "tensor<i32>", {}});
    }
  for (auto o0 : {"0", "1", "%i"}) for (auto o1 : {"0", "1", "2"}) for (int s0 = 1; s0 <= 2; s0++) for (int s1 = 1; s1 <= 2; s1++) {
    if (atoi(o1) + s1 > 3 || (o0[0] != '%' && atoi(o0) + s0 > 2) || (o0[0] == '%' && s0 == 2)) continue;
    two.push_back({cat(o0, ", ", o1), cat(s0, ", ", s1), "1, 1", cat("tensor<", s0, "x", s1, "xi32>"), {s0, s1}});
    if (s0 == 1) two.push_back({cat(o0, ", ", o1), cat(s0, ", ", s1), "1, 1", cat("tensor<", s1, "xi32>"), {s1}});
  }
  auto slices = [&](const std::string& nm, const std::string& ty, std::vector<int64_t> shape, std::vector<Sl>& sl, int maxN, bool lim) {
    for (int start = 0; start < 3; start++)
      for (int n = 1; n <= maxN; n++) {
        std::vector<int64_t> b(n + 1, sl.size());
        mc::product(b, [&](const std::vector<int64_t>& s) {
          if (!mc::mine()) return;
          if (lim && n == 2 && (s[0] + 2 * s[1] + 3 * s[2]) % 3) return;
          if (!mc::begin(cat("slice:", nm, start, ":", mc::join(s)))) return;
          mc::doing("forwarding slices");
          std::string args, body = start == 0 ? "" : start == 1 ? "  %t0 = tensor.empty() : " + ty + "\n" : "  %t0 = arith.constant dense<3> : " + ty + "\n";
          for (int k = 0; k < n; k++) {
            auto& q = sl[s[k]];
            args += cat(", %s", k, ": ", q.type);
            body += cat("  %t", k + 1, " = tensor.insert_slice %s", k, " into %t", k, "[", q.off, "] [", q.sizes, "] [", q.strides, "] : ", q.type, " into ", ty, "\n");
          }
          auto& q = sl[s[n]];
          std::string prog = cat("func.func @f(%i: index", args, start == 0 ? ", %t0: " + ty : "", ") -> (", q.type, ", ", ty, ") {\n", body, "  %e = tensor.extract_slice %t", n, "[", q.off, "] [", q.sizes, "] [", q.strides, "] : ", ty, " to ", q.type, "\n  return %e, %t", n, " : ", q.type, ", ", ty, "\n}\n");
          std::vector<Vs> in;
          for (int i = 0; i < 4; i++) {
            Vs v{ix(i)};
            for (int k = 0; k < n; k++) v.push_back(symTen(sl[s[k]].shape, 10 * k));
            if (start == 0) v.push_back(symTen(shape, 100));
            in.push_back(v);
          }
          preserve(d, "slice", prog, "f", fis, in);
        });
      }
  };
  slices("1", "tensor<4xi32>", {4}, one, T ? 2 : 2, !T);
  slices("2", "tensor<2x3xi32>", {2, 3}, two, 2, !T);

  // ---- memory that is never read
  {
    std::vector<std::string> al = {"memref.store $, %m[%c0] : memref<2xi32>", "affine.store $, %m[%i] : memref<2xi32>", "R = memref.load %m[%c0] : memref<2xi32>", "memref.dealloc %m : memref<2xi32>",
                                   "func.call @g(%m) : (memref<2xi32>) -> ()", "memref.copy %m, %n : memref<2xi32> to memref<2xi32>", "memref.store $, %n[%i] : memref<2xi32>", "memref.copy %n, %m : memref<2xi32> to memref<2xi32>",
                                   "scf.if %b {\n memref.store $, %m[%c0] : memref<2xi32>\n}"};
    for (int n = 1; n <= (T ? 4 : 3); n++) {
      auto in = inputs(n, true);
      sequences(al, n, [&](const std::vector<int64_t>& s) {
        if (!mc::mine() || !mc::begin(cat("unused:", mc::join(s)))) return;
        mc::doing("removing unused memory");
        std::string p = build(al, s, true);
        p.replace(p.find("  %v = "), p.find("\n", p.find("  %v = ")) - p.find("  %v = ") + 1, "");
        preserve(d, "unused", p, "f", [](OpPassManager& q) { q.addNestedPass<func::FuncOp>(createRemoveUnusedMemRef()); }, in, false, calls);
      });
    }
  }

  // ---- copies
  for (int rank = 0; rank <= 3; rank++) {
    std::vector<int64_t> b(rank, 3);
    mc::product(b, [&](const std::vector<int64_t>& sh0) {
      if (!mc::mine()) return;
      std::vector<int64_t> sh;
      for (auto x : sh0) sh.push_back(x + 1);
      std::string ty = "memref<" + mc::join(sh, "x") + (rank ? "x" : "") + "i32>";
      for (int un = 0; un < 2; un++)
        for (int pos = 0; pos < 2; pos++) {
          if (!mc::begin(cat("copy:", ty, un, pos))) continue;
          mc::doing("expanding copies");
          std::string prog = cat("func.func @f(%a: ", ty, ", %b: ", ty, ") {\n", pos ? cat("  memref.copy %b, %a : ", ty, " to ", ty, "\n") : "", "  %m = memref.alloc() : ", ty, "\n  memref.copy %a, %m : ", ty, " to ", ty, "\n  memref.copy %m, %b : ", ty, " to ", ty, "\n  return\n}\n");
          auto m = preserve(d, "copy", prog, "f", [&](OpPassManager& p) { ExpandCopyPassOptions o; o.disableAffineLoop = un; p.addPass(createExpandCopyPass(o)); }, {{symBuf(sh, 0), symBuf(sh, 100)}});
          if (m && (pm::count(*m, "memref.copy") || (un && pm::count(*m, "affine.for")))) mc::violate("copy:left", cat(mc::S().cur, ": copies or loops are left\n", text(*m)));
        }
    });
  }

  // ---- constant globals
  for (int rank = 0; rank <= 3; rank++) {
    std::vector<int64_t> b(rank, 2);
    mc::product(b, [&](const std::vector<int64_t>& sh0) {
      if (!mc::mine()) return;
      std::vector<int64_t> sh;
      int64_t n = 1;
      for (auto x : sh0) sh.push_back(x + 2), n *= x + 2;
      std::string ty = mc::join(sh, "x") + (rank ? "x" : "") + "i16";
      for (int splat = 0; splat < 2; splat++)
        for (int dyn = 0; dyn < 2; dyn++)
          for (int kind = 0; kind < 3; kind++) {
            if ((dyn && !rank) || !mc::begin(cat("global:", ty, splat, dyn, kind))) continue;
            mc::doing("replacing globals");
            std::string dense;
            if (splat) dense = "9";
            else {
              int64_t c = 0;
              std::function<std::string(size_t)> rec = [&](size_t k) -> std::string { if (k == sh.size()) return cat(++c * 3); std::string s = "["; for (int64_t i = 0; i < sh[k]; i++) s += (i ? ", " : "") + rec(k + 1); return s + "]"; };
              dense = rec(0);
            }
            std::string body, rets, types;
            int64_t q = 0;
            V::eachIndex(sh, [&](llvm::ArrayRef<int64_t> i) {
              std::string is, cs;
              for (size_t k = 0; k < i.size(); k++) { bool dy = dyn && k == 0 && q % 2; is += cat(k ? ", " : "", dy ? "%i" : cat("%k", i[k])); cs += cat(k ? ", " : "", dy ? "%i" : cat(i[k])); }
              body += kind == 1 ? cat("  %r", q, " = affine.load %g[", cs, "] : memref<", ty, ">\n") : cat("  %r", q, " = memref.load %g", kind == 2 && q % 2 ? "2" : "", "[", is, "] : memref<", ty, ">\n");
              rets += cat(q ? ", " : "", "%r", q); types += cat(q ? ", " : "", "i16");
              q++;
            });
            std::string prog = cat("memref.global \"private\" constant @w : memref<", ty, "> = dense<", dense, ">\nfunc.func @f(%i: index) -> (", types, ") {\n  %k0 = arith.constant 0 : index\n  %k1 = arith.constant 1 : index\n  %k2 = arith.constant 2 : index\n  %g = memref.get_global @w : memref<", ty, ">\n", kind == 2 ? cat("  %g2 = memref.get_global @w : memref<", ty, ">\n") : "", body, "  return ", rets, " : ", types, "\n}\n");
            auto m = preserve(d, "global", prog, "f", [](OpPassManager& p) { p.addPass(createMemrefGlobalReplacePass()); }, {{ix(0)}, {ix(1)}}, true);
            if (m && !dyn && (pm::count(*m, "memref.get_global") || pm::count(*m, "memref.global"))) mc::violate("global:left", cat(mc::S().cur, ": a global is left\n", text(*m)));
          }
    });
  }

  // ---- loop bodies to functions: two loads, up to three operations, one store, and an operation that only serves a load
  {
    const char* ops[] = {"arith.addi", "arith.muli", "arith.subi"};
    for (int n = 1; n <= 3; n++) {
      int vals = 3;  // two loads and a constant
      std::vector<int64_t> b;
      for (int k = 0; k < n; k++) b.push_back(3), b.push_back(vals + k), b.push_back(vals + k);
      b.push_back(n);  // which operation is stored
      b.push_back(2);  // an index computation in the body
      mc::product(b, [&](const std::vector<int64_t>& s) {
        if (!mc::mine()) return;
        if (n == 3 && !T && (s[0] || s[1] > s[2] || s[3] == 2)) return;
        if (!mc::begin(cat("body:", mc::join(s)))) return;
        mc::doing("extracting a loop body");
        auto nm = [&](int64_t k) { return k < 2 ? cat("%l", k) : k == 2 ? std::string("%k") : cat("%o", k - 3); };
        std::string body;
        for (int k = 0; k < n; k++) body += cat("      %o", k, " = ", ops[s[3 * k]], " ", nm(s[3 * k + 1]), ", ", nm(s[3 * k + 2]), " : i32\n");
        bool idxc = s.back();
        std::string l1 = idxc ? "      %p = arith.addi %c1, %c1 : index\n      %l1 = memref.load %n[%p] : memref<4xi32>\n" : "      %l1 = affine.load %n[%i] : memref<4xi32>\n";
        std::string prog = cat("func.func @f(%m: memref<4xi32>, %n: memref<4xi32>, %o: memref<4xi32>) {\n  %k = arith.constant 5 : i32\n  %c1 = arith.constant 1 : index\n  affine.for %i = 0 to 4 {\n      %l0 = affine.load %m[%i] : memref<4xi32>\n", l1, body, "      affine.store %o", s[3 * n], ", %o[%i] : memref<4xi32>\n  }\n  return\n}\n");
        preserve(d, "body", prog, "f", [](OpPassManager& p) { ExtractLoopBodyPassOptions o; o.minimumLoopSize = 1; o.minimumBodySize = 1; p.addPass(createExtractLoopBodyPass(o)); }, {{symBuf({4}, 0), symBuf({4}, 10), symBuf({4}, 20)}});
      });
    }
  }

  // ---- unroll and forward: loops and straight-line accesses of a local buffer and its views
  {
    std::vector<std::string> al = {
        "affine.for %i@ = 0 to 2 {\n %a@ = affine.load %n[%i@] : memref<4xi32>\n affine.store %a@, %m[%i@ * 2 + 1] : memref<4xi32>\n}",
        "affine.for %i@ = 0 to 3 {\n %a@ = affine.load %m[%i@] : memref<4xi32>\n %b@ = arith.addi %a@, $ : i32\n affine.store %b@, %m[%i@ + 1] : memref<4xi32>\n}",
        "affine.for %i@ = 0 to 2 {\n affine.for %j@ = 0 to 2 {\n %a@ = affine.load %v[%i@, %j@] : memref<2x2xi32>\n %b@ = arith.muli %a@, $ : i32\n affine.store %b@, %v[%j@, %i@] : memref<2x2xi32>\n}\n}",
        "affine.for %i@ = 0 to 4 {\n %a@ = affine.load %m[-%i@ + 3] : memref<4xi32>\n affine.store %a@, %n[%i@] : memref<4xi32>\n}",
        "affine.store $, %m[2] : memref<4xi32>", "R = affine.load %m[1] : memref<4xi32>", "R = affine.load %v[1, 0] : memref<2x2xi32>", "affine.store $, %v[0, 1] : memref<2x2xi32>",
        "affine.for %i@ = 1 to 4 step 2 {\n %a@ = affine.load %w[%i@ mod 2] : memref<2xi32, strided<[1], offset: 2>>\n affine.store %a@, %m[%i@ floordiv 2] : memref<4xi32>\n}",
        "R = affine.load %nv[1, 1] : memref<2x2xi32>"};
    for (int n = 1; n <= (T ? 4 : 3); n++)
      sequences(al, n, [&](const std::vector<int64_t>& s) {
        if (!mc::mine() || !mc::begin(cat("unroll:", mc::join(s)))) return;
        mc::doing("unrolling and forwarding");
        std::string body, rets, types, xs;
        for (int k = 0; k < n; k++) {
          std::string t = al[s[k]];
          for (size_t p; (p = t.find('@')) != std::string::npos;) t.replace(p, 1, std::to_string(k));
          for (size_t p; (p = t.find('$')) != std::string::npos;) t.replace(p, 1, cat("%x", k));
          if (t[0] == 'R') { rets += cat(rets.empty() ? "" : ", ", "%r", k); types += cat(types.empty() ? "" : ", ", "i32"); t.replace(0, 1, cat("%r", k)); }
          body += "  " + t + "\n";
          xs += cat(", %x", k, ": i32");
        }
        std::string prog = cat("func.func @f(%n: memref<4xi32>", xs, ") -> (", types, ") {\n  %m = memref.alloc() : memref<4xi32>\n  %nv = memref.expand_shape %n [[0, 1]] output_shape [2, 2] : memref<4xi32> into memref<2x2xi32>\n  %v = memref.expand_shape %m [[0, 1]] output_shape [2, 2] : memref<4xi32> into memref<2x2xi32>\n  %w = memref.subview %m[2] [2] [1] : memref<4xi32> to memref<2xi32, strided<[1], offset: 2>>\n",
                               "  affine.store %x0, %m[0] : memref<4xi32>\n  affine.store %x0, %m[1] : memref<4xi32>\n  affine.store %x0, %m[2] : memref<4xi32>\n  affine.store %x0, %m[3] : memref<4xi32>\n", body, "  return ", rets, rets.empty() ? "" : " : ", types, "\n}\n");
        Vs v{symBuf({4}, 100)};
        for (int k = 0; k < n; k++) v.push_back(sym(k));
        preserve(d, "unroll", prog, "f", [](OpPassManager& p) { p.addNestedPass<func::FuncOp>(createUnrollAndForwardPass()); }, {v});
      });
  }

  // ---- unused calls: client helpers only, and only when unused
  for (int which = 0; which < 3; which++) for (int used = 0; used < 2; used++) for (int twice = 0; twice < 2; twice++) {
    if (!mc::mine() || !mc::begin(cat("call:", which, used, twice))) continue;
    mc::doing("removing unused calls");
    const char* attr[] = {"", "attributes {client.enc_func = {func_name = \"f\", index = 0 : i64}}", "attributes {other.thing}"};
    std::string prog = cat("func.func private @p(%a: i32) -> i32 ", attr[which], " {\n  func.call @h(%a) : (i32) -> ()\n  return %a : i32\n}\nfunc.func private @h(i32)\nfunc.func @f(%x: i32, %y: i32) -> i32 {\n  %r = func.call @p(%x) : (i32) -> i32\n", twice ? "  %r2 = func.call @p(%y) : (i32) -> i32\n" : "", "  return ", used ? "%r" : "%y", " : i32\n}\n");
    bool pure = which == 1;
    auto m = d.need(prog);
    if (!m) continue;
    mc::state();
    if (!d.run(*m, [](OpPassManager& p) { p.addPass(createRemoveUnusedPureCall()); })) mc::violate("call:fails", cat(mc::S().cur, ": fails"));
    int left = 0;
    m->walk([&](func::CallOp c) { left += c.getCallee() == "p"; });
    int want = pure ? used : 1 + twice;
    mc::eval();
    if (left != want) mc::violate("call", cat(mc::S().cur, ": ", left, " calls left, want ", want, "\n", text(*m)));
  }
  return mc::finish();
}
