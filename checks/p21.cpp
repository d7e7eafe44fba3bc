// P21: modular and residue-number arithmetic: folding, rewriting and lowering to integers are exact.
#include "lib/Dialect/Arith/Conversions/ArithToModArith/ArithToModArith.h"
#include "lib/Dialect/HEIRInterfaces.h"
#include "lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.h"
#include "lib/Dialect/ModArith/Transforms/Passes.h"
#include "lib/Dialect/RNS/Transforms/Passes.h"
#include "modmc.h"
using namespace pm;
using namespace mlir::heir;
using mm::I128;

static Driver* D;
static const PassStep CANON{"canonicalize", [](OpPassManager& p) { p.addPass(createCanonicalizerPass()); }};
static const PassStep MAC{"convert-to-mac", [](OpPassManager& p) { p.addPass(mod_arith::createConvertToMac()); }};
static const PassStep BASIS{"lower-convert-basis", [](OpPassManager& p) { p.addPass(rns::createLowerConvertBasis()); }};
static const PassStep LOWER{"mod-arith-to-arith", [](OpPassManager& p) { p.addPass(mod_arith::createModArithToArith()); }};

// Folding tensor.from_elements of mod_arith constants crashes the installed MLIR:
// those constants are hidden behind an encapsulated integer first.
struct HideConstants : PassWrapper<HideConstants, OperationPass<ModuleOp>> {
  StringRef getArgument() const override { return "hide-constants"; }
  void runOnOperation() override {
    SmallVector<Operation*> all;
    getOperation().walk([&](Operation* o) { if (o->getName().getStringRef() == "tensor.from_elements" && isa<mod_arith::ModArithType>(o->getOperand(0).getType())) all.push_back(o); });
    for (auto* o : all) {
      OpBuilder b(o);
      for (auto& use : o->getOpOperands()) {
        auto c = use.get().getDefiningOp<mod_arith::ConstantOp>();
        if (!c) continue;
        auto value = cast<IntegerAttr>(c.getValue());
        auto q = cast<mod_arith::ModArithType>(c.getType()).getModulus();
        APInt v = value.getValue().zextOrTrunc(q.getValue().getBitWidth()).urem(q.getValue());
        Value raw = b.create<mlir::arith::ConstantOp>(o->getLoc(), IntegerAttr::get(q.getType(), v));
        use.set(b.create<mod_arith::EncapsulateOp>(o->getLoc(), c.getType(), raw));
      }
    }
  }
};
static const PassStep BASISLOW{"lower-convert-basis,mod-arith-to-arith", [](OpPassManager& p) { p.addPass(rns::createLowerConvertBasis()); p.addPass(std::make_unique<HideConstants>()); p.addPass(createCanonicalizerPass()); p.addPass(mod_arith::createModArithToArith()); }};

static std::string fam(const std::string& id) { return id.substr(0, id.find(':')); }
static std::string lowered(ModuleOp m) {
  std::string left;
  m.walk([&](Operation* o) { if (o->getName().getDialectNamespace() == "mod_arith" || (o->getName().getDialectNamespace() == "rns")) left = cat(o->getName().getStringRef().str(), " is left"); });
  return left;
}
// Explores the rewrites, each state also lowered to integers.
static void go(const std::string& id, const std::string& prog, const std::vector<Vs>& in, std::vector<PassStep> steps, int depth = 2, bool low = true) {
  mc::doing(fam(id));
  mc::guarded([&] {
    if (low) steps.push_back(LOWER);
    explore(*D, fam(id), prog, "f", steps, depth, in, mm::setup);
    if (!low) return;
    auto m = D->need(prog);
    if (m && D->run(*m, [&](OpPassManager& p) { p.addPass(mod_arith::createModArithToArith()); })) {
      auto w = lowered(*m);
      if (!w.empty()) mc::violate(fam(id) + ":left", cat(id, ": ", w, "\n", prog, "\n", text(*m)));
    }
  });
}
static V num(I128 v) { return V::scalar(Sc::in(v)); }
static int bits(I128 q) { int w = 0; while (q) { w++; q >>= 1; } return w; }
static bool maximal(I128 q, int w) { return q == ((I128)1 << (w - 1)) - 1; }  // fills its storage type
static std::string str(I128 v) { return Sc::in(v).str(); }
static std::string Z(I128 q, int w) { return cat("!mod_arith.int<", str(q), " : i", w, ">"); }

// All tuples of k residues: as one run on tensors, or as many scalar runs.
static std::vector<Vs> tuples(I128 q, int k) {
  std::vector<Vs> r;
  std::function<void(Vs)> rec = [&](Vs v) { if ((int)v.size() == k) { r.push_back(v); return; } for (I128 x = 0; x < q; x++) { Vs u = v; u.push_back(num(x)); rec(u); } };
  rec({});
  return r;
}
static Vs columns(const std::vector<Vs>& rows) {
  Vs r;
  for (size_t k = 0; k < rows[0].size(); k++) { std::vector<Sc> d; for (auto& v : rows) d.push_back(v[k].sc()); r.push_back(V::tensor({(int64_t)rows.size()}, d)); }
  return r;
}
struct Op1 { const char* name; int arity; };

static std::vector<I128> range(I128 lo, I128 hi) { std::vector<I128> r; for (I128 v = lo; v <= hi; v++) r.push_back(v); return r; }
static std::vector<I128> allModuli() {
  auto r = range(2, mc::thorough() ? 24 : 13);
  for (I128 q : {15, 16, 17, 31, 32, 33}) if (q > r.back()) r.push_back(q);
  return r;
}

static void single() {
  for (I128 q : allModuli())
    for (int extra : {1, 2, 5})
      for (int form = 0; form < 2; form++) {
        int w = bits(q) + extra;
        std::string z = Z(q, w), iw = cat("i", w);
        auto ty = [&](const std::string& t, size_t n) { return form ? cat("tensor<", n, "x", t, ">") : t; };
        for (Op1 o : {Op1{"add", 2}, Op1{"sub", 2}, Op1{"mul", 2}, Op1{"mac", 3}}) {
          if (o.arity == 3 && q > 9 && !form) continue;
          if (o.arity == 3 && q > 13) continue;
          std::string id = cat("ops:", o.name, ":", str(q), ":", w, ":", form);
          if (!mc::mine() || !mc::begin(id)) continue;
          auto rows = tuples(q, o.arity);
          std::string t = ty(z, rows.size()), args, use;
          for (int k = 0; k < o.arity; k++) { args += cat(k ? ", " : "", "%a", k, ": ", t); use += cat(k ? ", " : "", "%a", k); }
          std::vector<Vs> in = form ? std::vector<Vs>{columns(rows)} : rows;
          go(id, cat("func.func @f(", args, ") -> ", t, " {\n  %r = mod_arith.", o.name, " ", use, " : ", t, "\n  return %r : ", t, "\n}"), in, {CANON, MAC});
        }
        // raw integers: every value the storage type holds
        if (w <= 8 || mc::thorough()) {
          std::vector<Vs> rows;
          for (I128 v = -((I128)1 << (w - 1)); v < (I128)1 << (w - 1); v++) rows.push_back({num(v)});
          std::string t = ty(z, rows.size()), it = ty(iw, rows.size());
          std::vector<Vs> in = form ? std::vector<Vs>{columns(rows)} : rows;
          for (std::string what : {"reduce", "lift standard", "lift centered"}) {
            std::string id = cat("raw:", what, ":", str(q), ":", w, ":", form);
            if (!mc::mine() || !mc::begin(id)) continue;
            bool lift = what[0] == 'l';
            bool top = what == "lift centered" && maximal(q, w);
            go(cat(top ? "lift maximal" : lift ? "lift" : "raw", ":", id), cat("func.func @f(%a: ", it, ") -> ", lift ? it : t, " {\n  %e = mod_arith.encapsulate %a : ", it, " -> ", t, "\n  %r = mod_arith.", what, " %e : ", t, lift ? " -> " + it : "", "\n  return %r : ", lift ? it : t, "\n}"), in, {CANON});
          }
        }
      }
}
// Switching between two moduli keeps the centered representative. Which side the
// middle residue (q-1)/2 belongs to is not documented: it is left out.
static void modSwitch() {
  auto qs = mc::thorough() ? range(2, 20) : std::vector<I128>{2, 3, 4, 5, 7, 8, 9, 12, 16, 17};
  for (I128 a : qs)
    for (I128 b : qs)
      for (int wa : {bits(a) + 1, bits(a) + 3})
        for (int wb : {bits(b) + 1, bits(b) + 3, wa}) {
          if (wb < bits(b) + 1) continue;
          std::string id = cat("switch:", str(a), ":", wa, ":", str(b), ":", wb);
          if (!mc::mine() || !mc::begin(id)) continue;
          std::vector<Vs> in;
          for (auto& v : tuples(a, 1)) if (a % 2 == 0 || v[0].sc().i != (a - 1) / 2) in.push_back(v);
          std::string p = cat("func.func @f(%a: ", Z(a, wa), ") -> ", Z(b, wb), " {\n  %r = mod_arith.mod_switch %a : ", Z(a, wa), " to ", Z(b, wb), "\n  return %r : ", Z(b, wb), "\n}");
          go(id, p, in, {CANON}, 1);
        }
}
// Straight-line programs with constants: what canonicalization and folding see.
static void canon() {
  struct L { std::string name, def; };
  auto run = [&](const std::string& tag, const std::string& t, const std::vector<std::string>& consts, const std::vector<Vs>& in, int ops, bool withMac) {
    std::vector<std::string> leaves{"%x", "%y"};
    std::string defs;
    for (size_t k = 0; k < consts.size(); k++) { leaves.push_back(cat("%c", k)); defs += cat("  %c", k, " = ", consts[k], "\n"); }
    std::vector<std::pair<std::string, std::string>> stack;
    std::vector<std::string> names{"add", "sub", "mul"};
    if (withMac) names.push_back("mac");
    std::function<void(int, std::string, std::string, std::vector<std::string>)> rec = [&](int k, std::string body, std::string id, std::vector<std::string> avail) {
      if (k == ops) {
        if (!mc::mine() || !mc::begin(cat("canon:", tag, id))) return;
        std::string used;
        go(cat("canon ", tag.substr(0, tag.find(' ')), ":", id), cat("func.func @f(%x: ", t, ", %y: ", t, ") -> ", t, " {\n", defs, body, "  return %t", k - 1, " : ", t, "\n}"), in, {CANON, MAC}, mc::thorough() ? 3 : 2);
        return;
      }
      for (auto& n : names) {
        int ar = n == "mac" ? 3 : 2;
        std::vector<int64_t> dims(ar, avail.size());
        mc::product(dims, [&](const std::vector<int64_t>& c) {
          bool usesPrev = k == 0, var = k > 0;
          std::string use;
          for (int j = 0; j < ar; j++) { use += cat(j ? ", " : "", avail[c[j]]); usesPrev |= avail[c[j]] == cat("%t", k - 1); }
          if (!usesPrev) return;
          auto next = avail;
          next.push_back(cat("%t", k));
          rec(k + 1, body + cat("  %t", k, " = mod_arith.", n, " ", use, " : ", t, "\n"), id + cat(" ", n, "(", use, ")"), next);
        });
      }
    };
    rec(0, "", "", leaves);
  };
  for (I128 q : mc::thorough() ? std::vector<I128>{2, 3, 4, 5, 6, 7} : std::vector<I128>{2, 4, 5}) {
    int w = bits(q) + 1;
    std::string z = Z(q, w);
    std::vector<std::string> cs;
    for (I128 c : std::set<I128>{0, 1, q - 1, ((I128)1 << (w - 1)) - 1}) cs.push_back(cat("mod_arith.constant ", str(c), " : ", z));
    run(cat("scalar ", str(q)), z, cs, tuples(q, 2), 2, mc::thorough() ? q < 5 : false);
  }
  {
    std::string z = Z(5, 4), t = cat("tensor<25x", z, ">");
    auto dense = [&](I128 c) { std::string s; for (int k = 0; k < 25; k++) s += cat(k ? ", " : "", str(k % 3 ? c : (c + k) % 5)); return cat("mod_arith.constant dense<[", s, "]> : ", t); };
    run("tensor", t, {dense(0), dense(1), dense(4)}, {columns(tuples(5, 2))}, 2, true);
  }
  {
    std::string t = cat("!rns.rns<", Z(3, 4), ", ", Z(5, 4), ">");
    auto c = [&](int a, int b) { return cat("rns.constant <[#mod_arith.value<", a, " : ", Z(3, 4), ">, #mod_arith.value<", b, " : ", Z(5, 4), ">]> : ", t); };
    std::vector<Vs> in;
    for (int a = 0; a < 15; a++) for (int b = 0; b < 15; b += 2) in.push_back({V::tensor({2}, {Sc::in(a % 3), Sc::in(a % 5)}), V::tensor({2}, {Sc::in(b % 3), Sc::in(b % 5)})});
    // constants of RNS type have no lowering of their own: only rewriting is explored
    (void)c;
    run("rns", t, {}, in, 2, true);
  }
  if (mc::thorough())
    for (I128 q : {3, 4}) {
      int w = bits(q) + 1;
      std::string z = Z(q, w);
      run(cat("scalar3 ", str(q)), z, {cat("mod_arith.constant 1 : ", z), cat("mod_arith.constant ", str(q - 1), " : ", z)}, tuples(q, 2), 3, false);
    }
}
// Folding of RNS constants.
static void rnsFold() {
  std::string z3 = Z(3, 4), z5 = Z(5, 4), t = cat("!rns.rns<", z3, ", ", z5, ">");
  auto c = [&](int v) { return cat("rns.constant <[#mod_arith.value<", v % 3, " : ", z3, ">, #mod_arith.value<", v % 5, " : ", z5, ">]> : ", t); };
  for (std::string n : {"add", "sub", "mul", "mac"})
    for (int a = 0; a < 15; a++)
      for (int b = 0; b < 15; b++) {
        std::string id = cat("rnsfold:", n, ":", a, ":", b);
        if (!mc::mine() || !mc::begin(id)) continue;
        mc::doing("rnsfold");
        mc::guarded([&] {
          std::string prog = cat("func.func @f() -> ", t, " {\n  %a = ", c(a), "\n  %b = ", c(b), "\n  %r = mod_arith.", n, " %a, %b", n == "mac" ? ", %a" : "", " : ", t, "\n  return %r : ", t, "\n}");
          explore(*D, "rnsfold", prog, "f", {CANON, MAC}, 2, {Vs{}}, mm::setup, [&](ModuleOp m) { return std::string(); });
        });
      }
}
static void barrett() {
  for (I128 q : mc::thorough() ? range(2, 40) : range(2, 18)) {
    int w = bits(q - 1);
    for (int iw = std::max(w, 1); iw <= 2 * w; iw++) {
      std::string id = cat("barrett:", str(q), ":", iw);
      if (!mc::mine() || !mc::begin(id)) continue;
      mc::doing("barrett");
      mc::guarded([&] {
        std::string prog = cat("func.func @f(%a: i", iw, ") -> i", iw, " {\n  %r = mod_arith.barrett_reduce %a {modulus = ", str(q), " : i64} : i", iw, "\n  return %r : i", iw, "\n}");
        auto m = D->need(prog);
        if (!m) return;
        mc::state();
        if (!D->run(*m, LOWER.add) || failed(verify(*m))) { mc::violate("barrett:fails", cat(id, ": ", D->diag)); return; }
        for (I128 x = 0; x < q * q && x < (I128)1 << iw; x++) {
          Outcome o = exec(*m, "f", {num(interp::wrap(x, iw))}, mm::setup);
          mc::eval();
          if (o.kind != Outcome::OK) { mc::violate("barrett:harness", o.why); return; }
          I128 r = (I128)interp::zext(o.vals[0].sc().i, iw);
          if (r != x % q && !(r == x % q + q)) { mc::violate("barrett", cat(id, ": x=", str(x), " gives ", str(r))); return; }
          mc::outcome(cat("b", str(r)));
        }
      });
      std::string id2 = cat("subifge:", str(q), ":", iw);
      if (iw > 6 || !mc::begin(id2)) continue;
      std::string t = cat("i", iw);
      std::vector<Vs> in;
      for (I128 a = 0; a < (I128)1 << iw; a++) for (I128 b = 0; b < (I128)1 << iw; b++) in.push_back({num(interp::wrap(a, iw)), num(interp::wrap(b, iw))});
      go(id2, cat("func.func @f(%a: ", t, ", %b: ", t, ") -> ", t, " {\n  %r = mod_arith.subifge %a, %b : ", t, "\n  return %r : ", t, "\n}"), in, {CANON}, 1);
    }
  }
  // large moduli: the products need more than 64 bits
  for (I128 q : {(I128)2097151, (I128)2097152, (I128)2097153, (I128)4194301, (I128)1073741789, (I128)2147483647, (I128)4294967291LL}) {
    int w = bits(q - 1);
    if (3 * w > 120) continue;
    std::string id = cat("barrett:large:", str(q));
    if (!mc::mine() || !mc::begin(id)) continue;
    mc::doing("barrett large");
    mc::guarded([&] {
      int iw = 2 * w;
      std::string prog = cat("func.func @f(%a: i", iw, ") -> i", iw, " {\n  %r = mod_arith.barrett_reduce %a {modulus = ", str(q), " : i64} : i", iw, "\n  return %r : i", iw, "\n}");
      auto m = D->need(prog);
      if (!m) return;
      mc::state();
      if (!D->run(*m, LOWER.add) || failed(verify(*m))) { mc::violate("barrett large:fails", cat(id, ": ", D->diag)); return; }
      for (I128 base : {(I128)0, q, 2 * q, q * (q / 2), q * (q - 1), q * q - q})
        for (int d = -20; d <= 20; d++) {
          I128 x = base + d;
          if (x < 0 || x >= q * q) continue;
          Outcome o = exec(*m, "f", {num(interp::wrap(x, iw))}, mm::setup);
          mc::eval();
          if (o.kind != Outcome::OK) { mc::violate("barrett:harness", o.why); return; }
          I128 r = (I128)interp::zext(o.vals[0].sc().i, iw);
          if (r != x % q && r != x % q + q) { mc::violate("barrett large", cat(id, ": x=", str(x), " gives ", str(r))); return; }
        }
    });
  }
}
static std::vector<std::vector<int>> bases() {
  std::vector<std::vector<int>> r{{3}, {5}, {3, 5}, {5, 3}, {2, 3}, {4, 5}, {5, 7}, {3, 5, 7}, {7, 5, 3}, {2, 3, 5}};
  if (mc::thorough()) for (auto v : std::vector<std::vector<int>>{{7, 3}, {3, 4, 5}, {5, 7, 9}, {9, 7, 5}, {3, 5, 7, 11}, {11, 3, 7, 5}, {3, 7, 11}, {7, 11, 3}}) r.push_back(v);
  return r;
}
static std::string R(const std::vector<int>& b, int w) { std::string s; for (int q : b) s += cat(s.empty() ? "" : ", ", Z(q, w)); return cat("!rns.rns<", s, ">"); }
static V residues(I128 v, const std::vector<int>& b) { std::vector<Sc> d; for (int q : b) d.push_back(Sc::in(mm::pmod(v, q))); return V::tensor({(int64_t)b.size()}, d); }

static void rnsOps() {
  for (auto& b : bases()) {
    I128 Q = 1;
    int mx = 0;
    for (int q : b) { Q *= q; mx = std::max(mx, q); }
    for (int w : {bits(mx) + 1, bits(mx) + 3}) {
      std::string t = R(b, w), bid = cat(mc::join(b), ":", w);
      std::vector<Vs> one, two;
      for (I128 v = 0; v < Q; v++) one.push_back({residues(v, b)});
      for (I128 v = 0; v < Q; v++) for (I128 u = 0; u < Q; u += Q > 20 ? 7 : 1) two.push_back({residues(v, b), residues(u, b)});
      auto f1 = [&](const std::string& name, const std::string& op, const std::string& rt, const std::vector<PassStep>& st, int depth, bool low = true) {
        std::string id = cat(name, ":", bid);
        if (!mc::mine() || !mc::begin(id)) return;
        go(id, cat("func.func @f(%a: ", t, ") -> ", rt, " {\n", op, "  return %r : ", rt, "\n}"), one, st, depth, low);
      };
      if (b.size() > 1)
        for (Op1 o : {Op1{"add", 2}, Op1{"sub", 2}, Op1{"mul", 2}, Op1{"mac", 3}}) {
          std::string id = cat("rns ", o.name, ":", bid);
          if (!mc::mine() || !mc::begin(id)) continue;
          go(id, cat("func.func @f(%a: ", t, ", %b: ", t, ") -> ", t, " {\n  %r = mod_arith.", o.name, " %a, %b", o.arity == 3 ? ", %a" : "", " : ", t, "\n  return %r : ", t, "\n}"), two, {CANON, MAC});
        }
      for (size_t k = 0; k < b.size(); k++) f1(cat("rns residue:", k), cat("  %r = rns.extract_residue %a {index = ", k, " : index} : ", t, " -> ", Z(b[k], w), "\n"), Z(b[k], w), {CANON}, 1);
      for (size_t s = 0; s < b.size(); s++)
        for (size_t n = 1; s + n <= b.size(); n++) {
          std::vector<int> sub(b.begin() + s, b.begin() + s + n);
          f1(cat("rns slice:", s, ":", n), cat("  %r = rns.extract_slice %a {start = ", s, " : index, size = ", n, " : index} : ", t, " -> ", R(sub, w), "\n"), R(sub, w), {CANON}, 1);
        }
      {  // take apart and put together in another order
        std::string body, use, ty;
        std::vector<int> rev(b.rbegin(), b.rend());
        for (size_t k = 0; k < b.size(); k++) {
          body += cat("  %e", k, " = rns.extract_residue %a {index = ", b.size() - 1 - k, " : index} : ", t, " -> ", Z(rev[k], w), "\n");
          use += cat(k ? ", " : "", "%e", k);
          ty += cat(k ? ", " : "", Z(rev[k], w));
        }
        f1("rns pack", cat(body, "  %r = rns.pack ", use, " : ", ty, "\n"), R(rev, w), {CANON}, 1);
      }
      if (b.size() > 1)
        for (int lw : std::set<int>{std::max(w, bits(Q) + 1), std::max(w + 1, bits(Q) + 4), 24}) {
          f1(cat("rns interpolate:", lw), cat("  %r = mod_arith.mod_switch %a : ", t, " to ", Z(Q, lw), "\n"), Z(Q, lw), {CANON}, 1);
          f1(cat("rns roundtrip:", lw), cat("  %i = mod_arith.mod_switch %a : ", t, " to ", Z(Q, lw), "\n  %r = mod_arith.mod_switch %i : ", Z(Q, lw), " to ", t, "\n"), t, {CANON}, 1);
          for (I128 q : {Q, Q - 1, Q / 2 + 1, (I128)3}) {
            if (lw < bits(q) + 1) continue;
            std::string id = cat(lw == w ? "rns decompose same width:" : "rns decompose:", bid, ":", lw, ":", str(q));
            if (!mc::mine() || !mc::begin(id)) continue;
            go(id, cat("func.func @f(%a: ", Z(q, lw), ") -> ", t, " {\n  %r = mod_arith.mod_switch %a : ", Z(q, lw), " to ", t, "\n  return %r : ", t, "\n}"), tuples(q, 1), {CANON}, 1);
          }
        }
      for (auto& c : bases())
        for (bool same : {true, false}) {
          int mc2 = 0;
          bool odd = true;
          for (int q : b) odd &= q % 2;
          for (int q : c) { odd &= q % 2; mc2 = std::max(mc2, q); }
          for (auto* s : {&b, &c}) for (int q : *s) odd &= !maximal(q, w);  // lift centered: see the finding
          if (!odd) continue;
          int w2 = same ? w : w + 2;
          if (w2 < bits(mc2) + 1 || !same) continue;
          f1(cat("basis:", mc::join(c), ":", w2), cat("  %r = rns.convert_basis %a {targetBasis = ", R(c, w2), "} : ", t, " -> ", R(c, w2), "\n"), R(c, w2), {CANON, BASISLOW}, 2, false);
          f1(cat("basis ops:", mc::join(c), ":", w2), cat("  %r = rns.convert_basis %a {targetBasis = ", R(c, w2), "} : ", t, " -> ", R(c, w2), "\n"), R(c, w2), {BASIS}, 1, false);
        }
    }
  }
}
// Moduli that fill machine words: corner values only.
static void wide() {
  struct C { I128 q; int w; };
  for (C c : {C{(I128)127, 8}, C{(I128)32749, 16}, C{((I128)1 << 31) - 1, 32}, C{(I128)4294967291LL, 33}, C{(I128)4294967291LL, 64}, C{((I128)1 << 61) - 1, 62}, C{((I128)1 << 62) - 57, 63}, C{((I128)1 << 62) - 57, 64}, C{((I128)1 << 62), 64}}) {
    std::string z = Z(c.q, c.w);
    std::vector<I128> pts;
    for (I128 b : {(I128)0, c.q / 2, c.q - 3}) for (int d = 0; d < 3; d++) pts.push_back(b + d);
    std::vector<Vs> in;
    for (auto x : pts) for (auto y : pts) in.push_back({num(x), num(y)});
    for (Op1 o : {Op1{"add", 2}, Op1{"sub", 2}, Op1{"mul", 2}, Op1{"mac", 3}}) {
      std::string id = cat("wide ", o.name, ":", str(c.q), ":", c.w);
      if (!mc::mine() || !mc::begin(id)) continue;
      go(id, cat("func.func @f(%a: ", z, ", %b: ", z, ") -> ", z, " {\n  %r = mod_arith.", o.name, " %a, %b", o.arity == 3 ? ", %b" : "", " : ", z, "\n  return %r : ", z, "\n}"), in, {CANON, MAC});
      if (o.arity == 2)
        for (auto x : pts) {
          std::string id2 = cat("wide const ", o.name, ":", str(c.q), ":", c.w, ":", str(x));
          if (!mc::begin(id2)) continue;
          go(id2, cat("func.func @f(%a: ", z, ", %b: ", z, ") -> ", z, " {\n  %c = mod_arith.constant ", str(x), " : ", z, "\n  %d = mod_arith.constant ", str(pts[8]), " : ", z, "\n  %r = mod_arith.", o.name, " %c, %a : ", z, "\n  %s = mod_arith.", o.name, " %r, %d : ", z, "\n  %t = mod_arith.", o.name, " %c, %d : ", z, "\n  %u = mod_arith.add %s, %t : ", z, "\n  return %u : ", z, "\n}"), in, {CANON}, 2);
        }
    }
    std::string id = cat("wide lift:", str(c.q), ":", c.w);
    if (!mc::mine() || !mc::begin(id)) continue;
    for (std::string k : {"standard", "centered"})
      go(cat(k == "centered" && maximal(c.q, c.w) ? "lift maximal:" : "lift:", id, k), cat("func.func @f(%a: ", z, ", %b: ", z, ") -> i", c.w, " {\n  %r = mod_arith.lift ", k, " %a : ", z, " -> i", c.w, "\n  return %r : i", c.w, "\n}"), in, {CANON}, 1);
  }
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, mlir::arith::ArithDialect, func::FuncDialect, linalg::LinalgDialect, memref::MemRefDialect, scf::SCFDialect, tensor::TensorDialect, mod_arith::ModArithDialect, rns::RNSDialect>();
  Driver d(reg);
  D = &d;
  single();
  modSwitch();
  canon();
  rnsFold();
  barrett();
  rnsOps();
  wide();
  return mc::finish();
}
