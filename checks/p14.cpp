// P14: transformations of layouts, and the loop nests generated from them.
#include "interp.h"
#include "layoutref.h"
#include "lib/Utils/Layout/Codegen.h"
#include "lib/Utils/Layout/Hoisting.h"
#include "lib/Utils/Layout/IslConversion.h"
#include "lib/Utils/Layout/Utils.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/ImplicitLocOpBuilder.h"
#include "mlir/IR/Verifier.h"
using namespace lr;
using namespace mlir::heir;
using mc::cat;

static MLIRContext* ctx;
static RankedTensorType ty(const Pt& s) { return RankedTensorType::get(s, Float32Type::get(ctx)); }
static void same(const std::string& key, const IntegerRelation& r, const Set& want, const std::string& extra = "") {
  mc::eval();
  Set got = pts(r);
  mc::outcome(cat(key, mc::hashStr(show(got, 100000))));
  if (got != want) mc::violate(key, cat(mc::S().cur, " ", extra, ": ", diff(got, want)));
}
static std::string sg(int64_t k) { return cat(k < 0 ? " - " : " + ", std::abs(k)); }
static Set map(const Set& s, const std::function<Pt(const Pt&)>& f) { Set r; for (auto& p : s) r.insert(f(p)); return r; }

struct Named { std::string name; IntegerRelation r; Set s; int nd; };

// Relations used by several parts: layouts of every kind plus quasi-affine ones read from text.
static std::vector<Named> pool(bool big) {
  std::vector<Named> v;
  auto put = [&](std::string n, IntegerRelation r, int nd) { v.push_back({n, r, pts(r), nd}); };
  for (int64_t n : {1, 2, 3, 5, 8}) for (int64_t s : {1, 2, 4, 8}) put(cat("rowmajor ", n, "/", s), getRowMajorLayoutRelation(ty({n}), s), 1);
  for (auto [R, C] : std::vector<std::pair<int64_t, int64_t>>{{1, 1}, {1, 4}, {2, 2}, {2, 3}, {3, 2}, {4, 4}, {3, 5}})
    for (int64_t s : {2, 8, 16}) {
      put(cat("rowmajor ", R, "x", C, "/", s), getRowMajorLayoutRelation(ty({R, C}), s), 2);
      if (s >= std::max(pow2(R), pow2(C))) put(cat("diagonal ", R, "x", C, "/", s), getDiagonalLayoutRelation(ty({R, C}), s), 2);
      if (s >= pow2(C)) put(cat("perrow ", R, "x", C, "/", s), getPerRowLayoutRelation(ty({R, C}), s), 2);
      if (std::gcd(R, C) == 1 && s > 2) put(cat("bicyclic ", R, "x", C, "/", s), getBicyclicLayoutRelation(ty({R, C}), s), 2);
    }
  put("rowmajor 2x2x3/4", getRowMajorLayoutRelation(ty({2, 2, 3}), 4), 3);
  put("tricyclic 2x3x1/8", getTricyclicLayoutRelation(ty({2, 3, 1}), 8), 3);
  put("periodic 8/3", getPeriodicReplicationRelation(1, 8, 3), 2);
  put("bicyclic diagonal 3x2", getBicyclicDiagonalRelation(ty({3, 2}), 0, 1, 8), 2);
  int N = big ? 7 : 5;
  // [i] -> [ct, slot]: a quasi-affine pattern
  for (int a : {1, 2, 3}) for (int b : {-2, -1, 1}) for (int m = 2; m <= N; m++) for (int c : {0, 1, -3})
    put("x", *getIntegerRelationFromIslStr(cat("{ [i] -> [ct, slot] : exists q : ", a, "*i", sg(b), "*slot + ct", sg(c), " = ", m, "*q and 0 <= i <= 3 and 0 <= ct <= 1 and 0 <= slot <= ", m, " }")), 1), v.back().name = cat("affine ", a, ",", b, ",", m, ",", c);
  return v;
}

static std::vector<std::vector<ReassociationIndices>> reassociations(int n) {  // contiguous partitions of 0..n-1
  std::vector<std::vector<ReassociationIndices>> out;
  for (int m = 0; m < (1 << (n - 1)); m++) {
    std::vector<ReassociationIndices> g{{0}};
    for (int i = 1; i < n; i++) { if (m >> (i - 1) & 1) g.push_back({}); g.back().push_back(i); }
    out.push_back(g);
  }
  return out;
}
static std::string rs(ArrayRef<ReassociationIndices> g) { std::string s; for (auto& x : g) { s += "["; s += mc::join(x); s += "]"; } return s; }

// ---- loop nests
static void codegen(const Named& l, const std::vector<int>& sched, bool rev) {
  std::string id = cat("codegen:", l.name, ":", mc::join(sched), ":", rev);
  if (!mc::begin(id)) return;
  mc::state();
  size_t np = l.s.empty() ? 0 : l.s.begin()->size(), nr = np - l.nd;
  mc::doing("generating a loop nest");
  OwningOpRef<ModuleOp> m(ModuleOp::create(UnknownLoc::get(ctx)));
  OpBuilder ob(ctx);
  auto i32 = ob.getI32Type();
  ob.setInsertionPointToEnd(m->getBody());
  auto loc = UnknownLoc::get(ctx);
  auto visit = func::FuncOp::create(ob, loc, "visit", FunctionType::get(ctx, SmallVector<Type>(np, i32), {}));
  visit.setPrivate();
  auto f = func::FuncOp::create(ob, loc, "f", FunctionType::get(ctx, {}, {i32}));
  ImplicitLocOpBuilder b(loc, ctx);
  b.setInsertionPointToStart(f.addEntryBlock());
  Value zero = arith::ConstantIntOp::create(b, 0, 32);
  MLIRLoopNestGenerator gen(b);
  bool argc = true;
  auto loop = gen.generateForLoop(l.r, ValueRange{zero}, [&](OpBuilder& nb, Location nl, ValueRange e, ValueRange it) {
    if (e.size() != np) { argc = false; return scf::ValueVector(it.begin(), it.end()); }
    func::CallOp::create(nb, nl, "visit", TypeRange{}, e);
    Value one = arith::ConstantIntOp::create(nb, nl, 1, 32);
    Value s = arith::AddIOp::create(nb, nl, it[0], one);
    return scf::ValueVector{s};
  }, sched, rev);
  if (!argc) { mc::violate("codegen:args", cat(id, ": the statement does not receive all coordinates")); return; }
  if (failed(loop)) { mc::violate("codegen:fails", cat(id, ": no loop nest")); return; }
  b.setInsertionPointToEnd(&f.getBody().front());
  func::ReturnOp::create(b, loop->getResults());
  std::string txt; { llvm::raw_string_ostream o(txt); m->print(o); }
  if (failed(verify(*m))) { mc::violate("codegen:invalid", cat(id, ": invalid loop nest\n", txt)); return; }
  interp::Machine M(*m);
  M.ext = [](interp::Machine&, Operation* o, const interp::Vs&, interp::Vs&) { return isa<func::FuncOp>(o); };
  interp::Vs res;
  try { res = M.call("f", {}); } catch (std::exception& e) { mc::violate("codegen:exec", cat(id, ": executing the loop nest: ", e.what(), "\n", txt)); return; }
  mc::step(M.steps);
  mc::trace();
  std::vector<Pt> seen;
  for (auto& [n, vs] : M.effects) { Pt p; for (auto& v : vs) p.push_back((int64_t)v.sc().i); seen.push_back(p); }
  Set ss(seen.begin(), seen.end());
  mc::eval();
  if (ss != l.s) { mc::violate("codegen:points", cat(id, ": ", diff(ss, l.s), "\n", txt)); return; }
  if (seen.size() != ss.size()) mc::violate("codegen:twice", cat(id, ": a point is visited more than once\n", txt));
  if (res[0].sc().i != (int64_t)seen.size()) mc::violate("codegen:carried", cat(id, ": ", seen.size(), " points visited, loop-carried count ", (int64_t)res[0].sc().i, "\n", txt));
  // order: lexicographic in (scheduled domain dims, range), reversed on request
  auto keyOf = [&](const Pt& p) { Pt k; for (int s : sched) k.push_back(p[s]); for (size_t r = 0; r < nr; r++) k.push_back(p[l.nd + r]); return k; };
  for (size_t i = 1; i < seen.size(); i++) {
    Pt a = keyOf(seen[i - 1]), c = keyOf(seen[i]);
    if (rev ? a < c : c < a) { mc::violate("codegen:order", cat(id, ": point (", mc::join(seen[i - 1]), ") before (", mc::join(seen[i]), ")\n", txt)); break; }
  }
  if (!rev) {
    auto cs = generateLoopNestAsCStr(l.r, sched);
    if (failed(cs) || cs->find("S(") == std::string::npos) mc::violate("codegen:text", cat(id, ": no textual loop nest"));
  }
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  MLIRContext c(MLIRContext::Threading::DISABLED);
  ctx = &c;
  c.loadDialect<arith::ArithDialect, scf::SCFDialect, func::FuncDialect>();
  auto P = pool(T);

  // ---- shiftVar and prependPassthroughDim on every pool relation
  for (auto& l : P) {
    if (!mc::mine()) continue;
    size_t np = l.nd + l.r.getNumRangeVars();
    for (size_t v = 0; v < np; v++)
      for (int64_t k : {-3, -1, 0, 1, 2, 7}) {
        if (!mc::begin(cat("shift:", l.name, ":", v, ":", k))) continue;
        mc::doing("shifting a variable");
        mc::state();
        same("shift", shiftVar(l.r, v, k), map(l.s, [&](Pt p) { p[v] += k; return p; }));
      }
    for (auto [lo, hi] : std::vector<std::pair<int64_t, int64_t>>{{0, 0}, {0, 3}, {2, 4}, {-1, 1}}) {
      if (!mc::begin(cat("prepend:", l.name, ":", lo, ":", hi))) continue;
      mc::doing("prepending a pass-through dimension");
      mc::state();
      IntegerRelation r(l.r);
      prependPassthroughDim(r, lo, hi);
      Set w;
      for (auto& p : l.s) for (int64_t x = lo; x <= hi; x++) { Pt q{x}; q.insert(q.end(), p.begin(), p.begin() + l.nd); q.push_back(x); q.insert(q.end(), p.begin() + l.nd, p.end()); w.insert(q); }
      if (r.getNumDomainVars() != (unsigned)l.nd + 1) { mc::violate("prepend", cat(mc::S().cur, ": rank")); continue; }
      same("prepend", r, w);
    }
    // unbounded, through membership
    if (mc::begin(cat("prepend:", l.name, ":free")) && np <= 4) {
      mc::state();
      IntegerRelation r(l.r);
      prependPassthroughDim(r);
      bool ok = true;
      for (auto& p : l.s) for (int64_t x : {-5, 0, 9}) for (int64_t y : {-5, 0, 9}) {
        Pt q{x}; q.insert(q.end(), p.begin(), p.begin() + l.nd); q.push_back(y); q.insert(q.end(), p.begin() + l.nd, p.end());
        if ((bool)r.containsPointNoLocal(q) != (x == y)) ok = false;
      }
      mc::eval();
      if (!ok) mc::violate("prepend", cat(mc::S().cur, ": the new dimension is not carried through"));
    }
    // isl round trips
    if (mc::begin(cat("isl:", l.name))) {
      mc::doing("converting to isl and back");
      mc::state();
      auto* ic = isl_ctx_alloc();
      auto* bm = convertRelationToBasicMap(l.r, ic);
      char* str = isl_basic_map_to_str(bm);
      std::string text = str;
      free(str);
      auto back = convertBasicMapToRelation(bm);  // frees bm and ic
      same("isl", back, l.s, text);
      if (!isRelationEqual(back, l.r)) mc::violate("isl:equal", cat(mc::S().cur, ": the round trip is not recognised as equal"));
      auto re = getIntegerRelationFromIslStr(text);
      if (failed(re)) mc::violate("isl:parse", cat(mc::S().cur, ": ", text, " does not parse"));
      else same("isl:parse", *re, l.s, text);
    }
  }
  // ---- text form with every sign and modulus against direct evaluation
  for (int a = -3; a <= 3; a++) for (int b = -3; b <= 3; b++) {
    if (!mc::mine()) continue;
    for (int d : {-1, 0, 2}) for (int m : {2, 3, 4, 7}) for (int k : {-5, 0, 1}) {
      std::string t = cat("{ [i, j] -> [ct, slot] : (", a, "*i", sg(b), "*j", sg(k), " - slot) mod ", m, " = 0 and ct = floor((i", sg(d), "*j", sg(k), ")/", m, ") and 0 <= i <= 2 and 0 <= j <= 3 and 0 <= slot <= ", m + 1, " and -9 <= ct <= 9 }");
      if (!mc::begin("text:" + t)) continue;
      mc::doing("reading a layout from text");
      mc::state();
      auto r = getIntegerRelationFromIslStr(t);
      if (failed(r)) { mc::violate("text", t + " rejected"); continue; }
      Set w;
      for (int64_t i = 0; i <= 2; i++) for (int64_t j = 0; j <= 3; j++) for (int64_t s = 0; s <= m + 1; s++) {
        int64_t q = i + d * j + k, ct = (q - md(q, m)) / m;
        if (md(a * i + b * j + k - s, m) == 0 && ct >= -9 && ct <= 9) w.insert({i, j, ct, s});
      }
      same("text", *r, w, t);
    }
  }
  for (auto bad : {"", "{", "[i] -> [j]", "{ [i] -> [j] : i = }", "nonsense", "{ [i] -> [j] : i >= 0 or j >= 0 }"}) {
    if (!mc::mine() || !mc::begin(cat("text:bad:", bad))) continue;
    mc::state();
    mc::doing("rejecting malformed text");
    mc::eval();
    auto r = getIntegerRelationFromIslStr(bad);
    if (succeeded(r) && std::string(bad).find("{ [") != 0) mc::violate("text:bad", cat("malformed layout '", bad, "' is accepted"));
  }
  // ---- modulus constraints
  for (int a = -3; a <= 3; a++) for (int b = -3; b <= 3; b++) for (int m = 1; m <= 5; m++) {
    if (!mc::mine()) continue;
    for (int k : {-4, 0, 3}) {
      if (!mc::begin(cat("mod:", a, ",", b, ",", k, "%", m))) continue;
      mc::doing("adding a modulus constraint");
      mc::state();
      IntegerRelation r(presburger::PresburgerSpace::getRelationSpace(1, 2, 0, 0));
      addBounds(r, 0, 0, 3); addBounds(r, 1, 0, 3); addBounds(r, 2, -6, 6);
      unsigned v = addModConstraint(r, {a, b, 0, k}, m);
      addConstraint(r, {{v, 1}, {2, -1}}, true);  // range 1 is the remainder
      Set w;
      for (int64_t i = 0; i < 4; i++) for (int64_t j = 0; j < 4; j++) w.insert({i, j, md(a * i + b * j + k, m)});
      same("mod", r, w);
      // a second one on top of the first
      IntegerRelation r2(presburger::PresburgerSpace::getRelationSpace(1, 2, 0, 0));
      addBounds(r2, 0, 0, 3); addBounds(r2, 1, 0, 3); addBounds(r2, 2, -6, 6);
      unsigned v1 = addModConstraint(r2, {a, b, 0, k}, m);
      SmallVector<int64_t> e(r2.getNumCols(), 0);
      e[v1] = 2; e[0] = 1;
      unsigned v2 = addModConstraint(r2, e, 3);
      addConstraint(r2, {{v2, 1}, {2, -1}}, true);
      Set w2;
      for (int64_t i = 0; i < 4; i++) for (int64_t j = 0; j < 4; j++) w2.insert({i, j, md(2 * md(a * i + b * j + k, m) + i, 3)});
      same("mod:nested", r2, w2);
    }
  }
  // ---- reshapes
  std::vector<Pt> shapes;
  for (int r = 1; r <= 4; r++) mc::product(Pt(r, r == 4 && !T ? 2 : 3), [&](const std::vector<int64_t>& v) { Pt s = v; for (auto& x : s) x++; shapes.push_back(s); });
  for (auto& s : shapes) {
    if (!mc::mine()) continue;
    for (auto& g : reassociations(s.size())) {
      Pt dst;
      bool rankOnly = true;
      for (auto& x : g) { int64_t p = 1, big = 0; for (auto d : x) { p *= s[d]; big += s[d] > 1; } dst.push_back(p); if (big > 1) rankOnly = false; }
      if (mc::begin(cat("collapsed:", mc::join(s, "x"), ":", rs(g)))) {
        mc::doing("building a collapse relation");
        mc::state();
        Set w;
        mc::product(s, [&](const std::vector<int64_t>& ix) {
          Pt p = ix;
          for (auto& x : g) { int64_t f = 0; for (auto d : x) f = f * s[d] + ix[d]; p.push_back(f); }
          w.insert(p);
        });
        same("collapsed", getCollapsedRelation(ty(s), ty(dst), g), w);
      }
      if (!rankOnly) continue;
      for (int64_t slots : {4, 16}) {
        if (!mc::begin(cat("reshape:", mc::join(s, "x"), ":", rs(g), ":", slots))) continue;
        mc::state();
        Set full = rowMajor(s, slots), flatSet = rowMajor(dst, slots);
        mc::doing("collapsing unit dimensions of a layout");
        auto col = collapseDimensions(getRowMajorLayoutRelation(ty(s), slots), ty(s), g);
        if (col.getNumDomainVars() != dst.size()) mc::violate("collapse:rank", cat(mc::S().cur, ": collapsed layout has rank ", col.getNumDomainVars(), ", want ", dst.size()));
        else same("collapse", col, flatSet);
        mc::doing("expanding a layout with unit dimensions");
        auto ex = expandDimensions(getRowMajorLayoutRelation(ty(dst), slots), ty(s), g);
        if (ex.getNumDomainVars() != s.size()) mc::violate("expand:rank", cat(mc::S().cur, ": expanded layout has rank ", ex.getNumDomainVars(), ", want ", s.size()));
        else same("expand", ex, full);
      }
    }
    if (prod(s) == 1 && mc::begin(cat("reshape:", mc::join(s, "x"), ":scalar"))) {
      mc::state();
      mc::doing("expanding and collapsing a scalar layout");
      IntegerRelation r0(presburger::PresburgerSpace::getRelationSpace(0, 2, 0, 0));
      addBounds(r0, 0, 0, 0); addBounds(r0, 1, 0, 7);
      Set w0, w;
      for (int64_t k = 0; k < 8; k++) { w0.insert({0, k}); Pt q(s.size(), 0); q.push_back(0); q.push_back(k); w.insert(q); }
      same("expand", expandDimensions(r0, ty(s), {}), w);
      auto col = collapseDimensions(getRowMajorLayoutRelation(ty(s), 8), ty(s), {});
      if (col.getNumDomainVars() != 0) mc::violate("collapse:rank", cat(mc::S().cur, ": scalar layout has rank ", col.getNumDomainVars()));
      else same("collapse", col, w0);
    }
  }
  // ---- slices: every result shape, offset, size, stride and rank reduction
  for (int r = 1; r <= 3; r++) {
    int64_t M = r == 1 ? 6 : r == 2 ? (T ? 4 : 3) : 2;
    mc::product(Pt(r, M), [&](const std::vector<int64_t>& v) {
      Pt s = v;
      for (auto& x : s) x++;
      if (!mc::mine()) return;
      mc::product(s, [&](const std::vector<int64_t>& off) {
        mc::product(s, [&](const std::vector<int64_t>& szm) {
          mc::product(Pt(r, r == 3 ? 2 : 3), [&](const std::vector<int64_t>& stm) {
            Pt sz = szm, st = stm;
            for (auto& x : sz) x++;
            for (auto& x : st) x++;
            for (int d = 0; d < r; d++) if (off[d] + (sz[d] - 1) * st[d] >= s[d]) return;
            for (int drop = 0; drop < (1 << r); drop++) {
              Pt sl;
              bool ok = true;
              for (int d = 0; d < r; d++) if (drop >> d & 1) { if (sz[d] != 1) ok = false; } else sl.push_back(sz[d]);
              if (!ok) continue;
              if (!mc::begin(cat("slice:", mc::join(s, "x"), ":", mc::join(off), ":", mc::join(sz), ":", mc::join(st), ":", drop))) continue;
              mc::doing("building a slice relation");
              mc::state();
              Set ins, ext;
              mc::product(sl.empty() ? Pt{1} : sl, [&](const std::vector<int64_t>& a) {
                Pt src, dst;
                int k = 0;
                for (int d = 0; d < r; d++) dst.push_back(off[d] + (drop >> d & 1 ? 0 : a[k++] * st[d]));
                if (!sl.empty()) src = a;
                Pt p = src; p.insert(p.end(), dst.begin(), dst.end()); ins.insert(p);
                Pt q = dst; q.insert(q.end(), src.begin(), src.end()); ext.insert(q);
              });
              SmallVector<int64_t> o(off.begin(), off.end()), z(sz.begin(), sz.end()), t(st.begin(), st.end());
              auto a = getSliceInsertionRelation(ty(sl), ty(s), o, z, t);
              if (failed(a)) mc::violate("slice:insert", cat(mc::S().cur, ": no insertion relation"));
              else same("slice:insert", *a, ins);
              auto b = getSliceExtractionRelation(ty(s), ty(sl), o, z, t);
              if (failed(b)) mc::violate("slice:extract", cat(mc::S().cur, ": no extraction relation"));
              else same("slice:extract", *b, ext);
            }
          });
        });
      });
    });
  }
  // ---- padding
  for (int r = 1; r <= 3; r++)
    mc::product(Pt(r, 3), [&](const std::vector<int64_t>& v) {
      if (!mc::mine()) return;
      mc::product(Pt(r, r == 3 ? 2 : 3), [&](const std::vector<int64_t>& lo) {
        mc::product(Pt(r, 2), [&](const std::vector<int64_t>& hi) {
          if (!mc::begin(cat("pad:", mc::join(v, "x"), ":", mc::join(lo), ":", mc::join(hi)))) return;
          mc::doing("building a padding relation");
          mc::state();
          Pt u = v, p;
          for (auto& x : u) x++;
          for (int d = 0; d < r; d++) p.push_back(u[d] + lo[d] + hi[d]);
          Set w;
          mc::product(u, [&](const std::vector<int64_t>& a) { Pt q; for (int d = 0; d < r; d++) q.push_back(a[d] + lo[d]); q.insert(q.end(), a.begin(), a.end()); w.insert(q); });
          same("pad", getPaddingRelation(ty(p), ty(u), lo), w);
        });
      });
    });
  // ---- diagonalisation of a matrix layout
  for (int64_t R = 1; R <= 5; R++) for (int64_t C = 1; C <= 5; C++) for (int64_t slots : {8, 16}) {
    if (!mc::mine()) continue;
    for (int tr = 0; tr < 3; tr++) {
      if (!mc::begin(cat("diagonalize:", R, "x", C, ":", slots, ":", tr))) continue;
      mc::doing("diagonalising a matrix layout");
      mc::state();
      // an element-to-matrix-position relation: identity, transpose, or a row shift into a taller matrix
      std::string body = tr == 0 ? "a = i and b = j" : tr == 1 ? "a = j and b = i" : "a = i + 1 and b = j";
      int64_t mr = tr == 1 ? C : tr == 2 ? R + 1 : R, mcn = tr == 1 ? R : C;
      auto rel = *getIntegerRelationFromIslStr(cat("{ [i, j] -> [a, b] : ", body, " and 0 <= i < ", R, " and 0 <= j < ", C, " }"));
      auto out = diagonalize2dMatrix(rel, ty({R, C}), slots);
      if (failed(out)) { mc::violate("diagonalize", cat(mc::S().cur, ": fails")); continue; }
      same("diagonalize", *out, compose(pts(rel), diagonal(mr, mcn, slots), 2, 2));
    }
  }
  // ---- folding a permutation of the vector into the matrix layout
  for (int64_t C : {1, 2, 3, 4, 8}) for (int64_t R : {1, 2, 3, 4}) for (int64_t slots : {8, 16}) {
    if (!mc::mine()) continue;
    for (int64_t a = 1; a < std::max<int64_t>(C, 2); a++) for (int64_t b = 0; b < C; b++) {
      if (std::gcd(a, C) != 1 || !mc::begin(cat("fold:", R, "x", C, ":", slots, ":", a, ",", b))) continue;
      mc::doing("folding a vector permutation into a matrix layout");
      mc::state();
      auto perm = *getIntegerRelationFromIslStr(cat("{ [i] -> [ct, slot] : ct = 0 and (", a, "*i + ", b, " - slot) mod ", C, " = 0 and 0 <= i < ", C, " and 0 <= slot < ", C, " }"));
      for (int k = 0; k < 2; k++) {
        auto mat = k ? getRowMajorLayoutRelation(ty({R, C}), slots) : getDiagonalLayoutRelation(ty({R, C}), slots);
        Set ms = pts(mat), w;
        for (auto& p : ms) for (int64_t i = 0; i < C; i++) if (md(a * i + b, C) == p[1]) w.insert({p[0], i, p[2], p[3]});
        same("fold", foldVectorPermutationIntoMatrixLayout(perm, mat), w, k ? "row-major" : "diagonal");
      }
    }
  }
  // ---- hoisting a vector layout conversion through a matrix-vector product
  for (int64_t C : {1, 2, 3, 4}) for (int64_t R : {1, 2, 3, 4}) for (int64_t slots : {4, 8}) {
    if (!mc::mine()) continue;
    for (int64_t a = 0; a < slots; a++) for (int64_t b = 0; b < slots; b += 3) {
      if (!mc::begin(cat("hoist:", R, "x", C, ":", slots, ":", a, ",", b))) continue;
      mc::doing("hoisting a layout conversion through a matrix-vector product");
      mc::state();
      auto vl = [&](int64_t sh, bool once) { return *getIntegerRelationFromIslStr(cat("{ [i] -> [ct, slot] : ct = 0 and (i + ", sh, " - slot) mod ", once ? slots : pow2(C), " = 0 and 0 <= i < ", C, " and 0 <= slot < ", slots, " }")); };
      for (int k = 0; k < 4; k++) {
        auto from = vl(a, k & 1), to = vl(b, k & 2);
        auto mat = R <= slots ? getDiagonalLayoutRelation(ty({R, C}), slots) : getRowMajorLayoutRelation(ty({R, C}), slots);
        Set fs = pts(from), ts = pts(to), conv;
        for (auto& p : fs) for (auto& q : ts) if (p[0] == q[0]) conv.insert({p[2], q[2]});
        Set w;
        for (auto& p : pts(mat)) for (auto& s : conv) if (s[0] == p[3]) w.insert({p[0], p[1], p[2], s[1]});
        same("hoist", hoistConversionThroughMatvec(mat, from, to), w, cat("variant ", k));
      }
    }
  }
  // ---- pushing a slice's layout through its insertion into a larger tensor
  for (int r = 1; r <= 4; r++)
    mc::product(Pt(r, r == 4 && !T ? 2 : 3), [&](const std::vector<int64_t>& v) {
      if (!mc::mine()) return;
      Pt s = v;
      for (auto& x : s) x++;
      for (int unit = 0; unit < (1 << r); unit++) {
        SmallVector<int64_t> sizes;
        Pt red, keep;
        std::vector<int> ud;
        for (int d = 0; d < r; d++) { bool u = unit >> d & 1 || s[d] == 1; if (!(unit >> d & 1) && s[d] == 1) { sizes.clear(); break; } sizes.push_back(u ? 1 : s[d]); keep.push_back(sizes.back()); if (u) ud.push_back(d); else red.push_back(s[d]); }
        if ((int)sizes.size() != r) continue;
        for (int full = 0; full < 2; full++)
          for (int64_t slots : {2, 4, 16}) {
            Pt sl = full ? keep : red;
            if (sl.empty() || (full && ud.empty())) continue;
            if (!mc::begin(cat("push:", mc::join(s, "x"), ":", unit, ":", full, ":", slots))) continue;
            mc::doing("pushing a slice layout through an insertion");
            mc::state();
            auto lay = getRowMajorLayoutRelation(ty(sl), slots);
            auto out = pushSliceLayoutThroughInsertSlice(sizes, s, lay);
            if (failed(out)) { mc::violate("push", cat(mc::S().cur, ": fails")); continue; }
            Set ls = rowMajor(sl, slots), w;
            int64_t cts = 0, total = 1;
            for (auto& p : ls) cts = std::max(cts, p[sl.size()] + 1);
            for (int d : ud) total *= s[d];
            Pt ub;
            for (int d : ud) ub.push_back(s[d]);
            // Which slice comes first is the compiler's choice; it must be a bijection onto the ciphertext blocks,
            // each holding the slice at its own layout.
            Set got = pts(*out);
            std::map<Pt, Set> per;
            for (auto& p : got) {
              Pt u, in;
              for (int d = 0; d < r; d++) { bool isU = llvm::is_contained(ud, d); if (isU) u.push_back(p[d]); if (!isU) in.push_back(p[d]); else if (full) in.push_back(0); }
              in.push_back(p[r]); in.push_back(p[r + 1]);
              per[u].insert(in);
            }
            mc::eval();
            std::set<int64_t> blocks;
            bool ok = (int64_t)per.size() == total;
            for (auto& [u, set] : per) {
              int64_t lo = INT64_MAX;
              for (auto& p : set) lo = std::min(lo, p[sl.size()]);
              if (lo % cts || lo < 0 || lo / cts >= total || !blocks.insert(lo).second) ok = false;
              Set norm = map(set, [&](Pt p) { p[sl.size()] -= lo; return p; });
              if (norm != ls) ok = false;
            }
            if (!ok) mc::violate("push", cat(mc::S().cur, ": the pushed layout does not place every slice at its own layout: ", show(got, 40)));
            mc::outcome(cat("push", mc::hashStr(show(got, 100000))));
          }
      }
    });
  // ---- loop nests
  for (auto& l : P) {
    if (!mc::mine() || l.s.empty()) continue;
    for (int m = 0; m < (1 << l.nd); m++) {
      std::vector<int> sched;
      for (int d = 0; d < l.nd; d++) if (m >> d & 1) sched.push_back(d);
      for (bool rev : {false, true}) codegen(l, sched, rev);
    }
  }
  return mc::finish();
}
