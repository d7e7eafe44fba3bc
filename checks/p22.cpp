// P22: polynomial-ring arithmetic: folding, root attachment, form selection and lowering are exact.
#include "lib/Dialect/HEIRInterfaces.h"
#include "lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.h"
#include "lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.h"
#include "lib/Dialect/Polynomial/Transforms/AttachNTTRoots.h"
#include "mlir/Dialect/LLVMIR/LLVMDialect.h"
#include "polymc.h"
using namespace pm;
using namespace mlir::heir;
using mm::I128;

static Driver* D;
static const PassStep CANON{"canonicalize", [](OpPassManager& p) { p.addPass(createCanonicalizerPass()); }};
static const PassStep ROOTS{"attach-ntt-roots", [](OpPassManager& p) { p.addPass(polynomial::createAttachNTTRoots()); }};
static const PassStep PM{"polynomial-to-mod-arith", [](OpPassManager& p) { p.addPass(polynomial::createPolynomialToModArith()); }};
static const PassStep LOW{"polynomial-to-mod-arith,mod-arith-to-arith", [](OpPassManager& p) { p.addPass(polynomial::createPolynomialToModArith()); p.addPass(mod_arith::createModArithToArith()); }};

struct R {  // a ring
  std::vector<int> q;  // empty: machine integers
  int w;
  std::vector<int> mod;
  int N() const { return (int)mod.size() - 1; }
  int L() const { return q.empty() ? 1 : (int)q.size(); }
  bool rns() const { return q.size() > 1; }
  std::string limb(int l) const { return cat("!mod_arith.int<", q[l], " : i", w, ">"); }
  std::string coef() const {
    if (q.empty()) return cat("i", w);
    if (!rns()) return limb(0);
    std::string s = "!rns.rns<";
    for (int l = 0; l < L(); l++) s += (l ? ", " : "") + limb(l);
    return s + ">";
  }
  std::string poly(const std::vector<int64_t>& c) const { return terms(c); }
  static std::string terms(const std::vector<int64_t>& c) {
    std::string s;
    for (size_t k = 0; k < c.size(); k++) if (c[k]) {
      s += s.empty() ? "" : " + ";
      s += k ? cat(c[k], " x**", k) : cat(c[k]);
    }
    return s.empty() ? "0" : s;
  }
  std::string ty(bool eval = false) const {
    std::vector<int64_t> m(mod.begin(), mod.end());
    return cat("!polynomial.polynomial<ring = <coefficientType = ", coef(), ", polynomialModulus = <", terms(m), ">>", eval ? ", form = eval" : "", ">");
  }
  std::string tensor(int n) const { return cat("tensor<", n, "x", coef(), ">"); }
  std::string name() const { std::string s = "q"; for (int x : q) s += cat(x, "."); s += cat("i", w, "m"); for (int m : mod) s += cat(m, "."); return s; }
};
static std::vector<int> xn(int n, int c) { std::vector<int> m(n + 1, 0); m[0] = c; m[n] = 1; return m; }

static std::string fam(const std::string& id) { return id.substr(0, id.find(':')); }
static void go(const std::string& id, const std::string& prog, const std::vector<Vs>& in, std::vector<PassStep> steps, int depth = 2, bool low = true, const PassStep& last = LOW) {
  mc::doing(fam(id));
  mc::guarded([&] {
    // Tensors of residue tuples are lowered to modular arithmetic; the lowering to machine integers does not support all of them.
    bool rns = prog.find("!rns.rns") != std::string::npos;
    if (low) steps.push_back(rns && last.add.target_type() == LOW.add.target_type() ? PM : last);
    explore(*D, fam(id), prog, "f", steps, depth, in, po::setup);
    if (!low) return;
    auto m = D->need(prog);
    if (m && D->run(*m, last.add)) {
      std::string left;
      m->walk([&](Operation* o) { if (o->getName().getDialectNamespace() == "polynomial") left = o->getName().getStringRef().str(); });
      if (!left.empty()) mc::violate(fam(id) + ":left", cat(id, ": ", left, " is left\n", prog, "\n", text(*m)));
    }
  });
}
// As go, but the lowering may reject the program with an error.
static void goReject(const std::string& id, const std::string& prog, const std::vector<Vs>& in) {
  go(id, prog, in, {CANON}, 2, false);
  mc::guarded([&] {
    auto m = D->need(prog);
    if (!m) return;
    OwningOpRef<ModuleOp> c(m->clone());
    if (!D->run(*c, LOW.add)) { mc::outcome("rejected"); return; }
    explore(*D, fam(id), prog, "f", {LOW}, 1, in, po::setup);
  });
}
static V num(I128 v) { return V::scalar(Sc::in(v)); }

// All coefficient vectors of length n over the ring (machine integers: a few).
static std::vector<V> polys(const R& r, int n, size_t limit = 1u << 20) {
  std::vector<std::vector<int>> dig(r.L());
  for (int l = 0; l < r.L(); l++) {
    if (r.q.empty()) dig[l] = {0, 1, -1, 5};
    else for (int x = 0; x < r.q[l]; x++) dig[l].push_back(x);
  }
  auto total = [&] { double t = 1; for (int k = 0; k < n; k++) for (auto& d : dig) t *= d.size(); return t; };
  // too many: keep the ends of each range
  while (total() > limit) {
    size_t big = 0;
    for (int l = 0; l < r.L(); l++) if (dig[l].size() > dig[big].size()) big = l;
    auto& d = dig[big];
    if (d.size() <= 2) break;
    d.erase(d.begin() + d.size() / 2);
  }
  std::vector<V> out;
  std::vector<int64_t> b;
  for (int k = 0; k < n; k++) for (auto& d : dig) b.push_back(d.size());
  bool sparse = total() > limit;  // still too many: at most two coefficients that are not zero
  mc::product(b, [&](const std::vector<int64_t>& ix) {
    if (sparse && std::count_if(ix.begin(), ix.end(), [](int64_t x) { return x != 0; }) > 2) return;
    std::vector<Sc> v;
    for (size_t k = 0; k < ix.size(); k++) v.push_back(Sc::in(dig[k % r.L()][ix[k]]));
    std::vector<int64_t> sh{n};
    if (r.rns()) sh.push_back(r.L());
    out.push_back(V::tensor(sh, v));
  });
  return out;
}
static std::vector<V> scalars(const R& r) {
  std::vector<V> out;
  for (auto& v : polys(r, 1)) out.push_back(r.rns() ? V::tensor({r.L()}, v.flat()) : num(v.flat()[0].i));
  return out;
}
static bool zeroProduct(const R& r, const V& a, const V& b) {
  auto fa = a.flat(), fb = b.flat();
  po::Ring g;
  for (int x : r.q) g.q.push_back(x);
  g.w = r.w; g.N = r.N(); g.rns = r.rns();
  for (int m : r.mod) g.mod.push_back(m);
  for (int l = 0; l < r.L(); l++) for (auto x : po::product(g, po::column(g, a, l), po::column(g, b, l), l)) if (x) return false;
  return true;
}

static std::vector<R> rings() {
  std::vector<R> r;
  bool t = mc::thorough();
  for (int q : t ? std::vector<int>{2, 3, 4, 5, 6, 7, 9, 17} : std::vector<int>{2, 3, 4, 5, 17})
    for (int w : {8, 32}) {
      if (w == 8 && q != 5 && q != 17) continue;
      for (int n : {1, 2, 3, 4}) {
        if (n == 4 && !t && q > 3) continue;
        r.push_back({{q}, w, xn(n, 1)});
        if (n == 2 || n == 3) r.push_back({{q}, w, xn(n, -1)});
      }
      r.push_back({{q}, w, {1, 1, 1}});
      r.push_back({{q}, w, {-1, 2, 0, 1}});
      if (q % 2) r.push_back({{q}, w, {1, 0, 2}});   // leading coefficient 2
      if (q % 2) r.push_back({{q}, w, {3, -1, -1}});  // leading coefficient -1
    }
  if (!t) r.push_back({{9}, 32, xn(2, 1)});
  r.push_back({{3, 5}, 8, xn(2, 1)});
  r.push_back({{5, 17}, 32, xn(2, -1)});
  r.push_back({{2, 3, 5}, 16, xn(3, 1)});
  if (t) { r.push_back({{5, 7}, 16, {1, 1, 2}}); r.push_back({{3, 5}, 8, xn(4, 1)}); }
  return r;
}

static void single() {
  for (auto& r : rings()) {
    std::string p = r.ty(), c = r.coef(), t = r.tensor(r.N());
    auto one = [&](const std::string& what, const std::function<void(const std::string&)>& f) { std::string id = cat(what, ":", r.name()); if (mc::mine() && mc::begin(id)) f(id); };
    size_t lim = mc::thorough() ? 300 : 90;
    auto ps = polys(r, r.N(), lim);
    std::vector<Vs> pairs;
    for (auto& a : ps) for (auto& b : ps) pairs.push_back({a, b});
    for (bool ev : {false, true}) {
      std::string pp = r.ty(ev);
      for (std::string o : {"add", "sub"})
        one(cat("ops:", o, ev), [&](const std::string& id) { go(id, cat("func.func @f(%a: ", pp, ", %b: ", pp, ") -> ", pp, " {\n  %r = polynomial.", o, " %a, %b : ", pp, "\n  return %r : ", pp, "\n}"), pairs, r.rns() ? std::vector<PassStep>{CANON} : std::vector<PassStep>{CANON, PM}); });
      one(cat("ops:scalar", ev), [&](const std::string& id) {
        std::vector<Vs> in;
        for (auto& a : ps) for (auto& s : scalars(r)) in.push_back({a, s});
        go(id, cat("func.func @f(%a: ", pp, ", %s: ", c, ") -> ", pp, " {\n  %r = polynomial.mul_scalar %a, %s : ", pp, ", ", c, "\n  return %r : ", pp, "\n}"), in, {CANON}, 2, !r.rns());
      });
    }
    // Products; the zero product has cases of its own.
    std::vector<Vs> nz, z;
    for (auto& x : pairs) (zeroProduct(r, x[0], x[1]) ? z : nz).push_back(x);
    std::string mul = cat("func.func @f(%a: ", p, ", %b: ", p, ") -> ", p, " {\n  %r = polynomial.mul %a, %b : ", p, "\n  return %r : ", p, "\n}");
    one("mul", [&](const std::string& id) { go(id, mul, nz, {CANON}, 2, !r.rns()); });
    one("mulzero", [&](const std::string& id) { go(id, mul, z, {CANON}, 2, !r.rns()); });
    std::string e = r.ty(true);
    one("ops:muleval", [&](const std::string& id) { go(id, cat("func.func @f(%a: ", e, ", %b: ", e, ") -> ", e, " {\n  %r = polynomial.mul %a, %b : ", e, "\n  return %r : ", e, "\n}"), pairs, {CANON}); });
    // leading term of non-zero polynomials; monomials of all degrees
    one("ops:lead", [&](const std::string& id) {
      std::vector<Vs> in;
      for (auto& a : ps) { bool nzv = false; for (auto& s : a.flat()) nzv |= s.i != 0; if (nzv) in.push_back({a}); }
      go(id, cat("func.func @f(%a: ", p, ") -> (index, ", c, ") {\n  %d, %r = polynomial.leading_term %a : ", p, " -> (index, ", c, ")\n  return %d, %r : index, ", c, "\n}"), in, {CANON});
    });
    one("ops:monomial", [&](const std::string& id) {
      std::vector<Vs> in;
      for (auto& s : scalars(r)) for (int d = 0; d < r.N(); d++) in.push_back({s, num(d)});
      go(id, cat("func.func @f(%s: ", c, ", %d: index) -> ", p, " {\n  %r = polynomial.monomial %s, %d : (", c, ", index) -> ", p, "\n  return %r : ", p, "\n}"), in, {CANON});
    });
    if (r.mod[0] == -1 && std::count(r.mod.begin(), r.mod.end(), 0) == r.N() - 1 && r.mod.back() == 1)
      one("ops:rotate", [&](const std::string& id) {
        std::vector<Vs> in;
        for (auto& a : ps) for (int d = 0; d <= r.N(); d++) in.push_back({a, num(d)});
        go(id, cat("func.func @f(%a: ", p, ", %d: index) -> ", p, " {\n  %r = polynomial.monic_monomial_mul %a, %d : (", p, ", index) -> ", p, "\n  return %r : ", p, "\n}"), in, {CANON});
      });
    // to and from tensors, shorter tensors padded
    for (int n = 1; n <= r.N(); n++)
      one(cat("tensor:", n), [&](const std::string& id) {
        std::vector<Vs> in;
        for (auto& a : polys(r, n, lim)) in.push_back({a});
        std::string tn = r.tensor(n);
        go(id, cat("func.func @f(%a: ", tn, ") -> ", t, " {\n  %p = polynomial.from_tensor %a : ", tn, " -> ", p, "\n  %r = polynomial.to_tensor %p : ", p, " -> ", t, "\n  return %r : ", t, "\n}"), in, {CANON});
        if (n == 1) go("totensor:" + id, cat("func.func @f(%p: ", p, ") -> ", t, " {\n  %r = polynomial.to_tensor %p : ", p, " -> ", t, "\n  return %r : ", t, "\n}"), [&] { std::vector<Vs> v; for (auto& a : ps) v.push_back({a}); return v; }(), {CANON});
      });
    if (r.rns())
      for (int s = 0; s < r.L(); s++)
        for (int n = 1; s + n <= r.L(); n++)
          one(cat("slice:", s, ":", n), [&](const std::string& id) {
            R o = r;
            o.q = std::vector<int>(r.q.begin() + s, r.q.begin() + s + n);
            std::string oc = "!rns.rns<";
            for (int l = 0; l < n; l++) oc += (l ? ", " : "") + o.limb(l);
            oc += ">";
            std::vector<int64_t> m(r.mod.begin(), r.mod.end());
            std::string op = cat("!polynomial.polynomial<ring = <coefficientType = ", oc, ", polynomialModulus = <", R::terms(m), ">>>");
            std::vector<Vs> in;
            for (auto& a : ps) in.push_back({a});
            go(id, cat("func.func @f(%a: ", p, ") -> ", op, " {\n  %r = polynomial.extract_slice %a {start = ", s, " : index, size = ", n, " : index} : ", p, " -> ", op, "\n  return %r : ", op, "\n}"), in, {CANON});
          });
    else {
      one("apply", [&](const std::string& id) {
        std::vector<Vs> in;
        for (auto& a : ps) in.push_back({a});
        go(id, cat("func.func @f(%a: ", p, ") -> ", p, " {\n  %c = mod_arith.constant ", 1, " : ", c, "\n  %r = polynomial.apply_coefficientwise(%a : ", p, ") {\n  ^body(%x: ", c, ", %d: index):\n    %i = arith.index_cast %d : index to i", r.w, "\n    %e = mod_arith.encapsulate %i : i", r.w, " -> ", c, "\n    %g = mod_arith.reduce %e : ", c, "\n    %y = mod_arith.mul %x, %g : ", c, "\n    %z = mod_arith.add %y, %c : ", c, "\n    polynomial.yield %z : ", c, "\n  } -> ", p, "\n  return %r : ", p, "\n}"), in, {CANON});
      });
    }
  }
}

// Constants: every operation folded, with coefficients that are negative, unreduced and wide, and exponents past the degree.
static void constants() {
  for (auto& r0 : rings()) {
    if (r0.N() > 3) continue;
    R r = r0;
    std::string c = r.coef();
    std::vector<int64_t> co{0, 1, -1, 2, 300, -300};
    if (!r.q.empty() && !r.rns()) co.push_back(r.q[0] - 1), co.push_back(r.q[0]);
    if (r.w == 32 && mc::thorough()) co.push_back(5000000000LL);
    std::vector<std::vector<int64_t>> ks;
    for (auto x : co) for (int e = 0; e < r.N(); e++) { std::vector<int64_t> v(r.N(), 0); v[e] = x; ks.push_back(v); if (e) { v[0] = 3; ks.push_back(v); } }
    std::sort(ks.begin(), ks.end());
    ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
    for (bool ev : {false, true}) {
      std::string p = r.ty(ev);
      if (r.rns() && ev) continue;
      for (auto& a : ks) {
        std::string id = cat("const:", r.name(), ":", ev, ":", R::terms(a));
        if (!mc::mine() || !mc::begin(id)) continue;
        std::string k = cat("  %k = polynomial.constant int<", R::terms(a), "> : ", p, "\n");
        auto ps = polys(r, r.N(), 8);
        std::vector<Vs> in;
        for (auto& x : ps) in.push_back({x});
        go(id, cat("func.func @f() -> ", p, " {\n", k, "  return %k : ", p, "\n}"), {{}}, {CANON});
        for (std::string o : {"add", "sub"}) go(id, cat("func.func @f(%a: ", p, ") -> ", p, " {\n", k, "  %r = polynomial.", o, " %a, %k : ", p, "\n  return %r : ", p, "\n}"), in, {CANON});
        for (size_t bi = 0; bi < ks.size(); bi += mc::thorough() ? 1 : 1 + ks.size() / 4) {
          auto& b = ks[bi];
          std::string kk = cat(k, "  %l = polynomial.constant int<", R::terms(b), "> : ", p, "\n");
          for (std::string o : {"add", "sub", "mul"}) {
            if (o == "mul" && !ev && r.N() > 2 && !mc::thorough()) continue;
            bool zero = false;
            if (o == "mul" && !ev) {
              auto asV = [&](const std::vector<int64_t>& v) { std::vector<Sc> d; for (auto x : v) for (int q : r.q) d.push_back(Sc::in(mm::pmod(x, q))); std::vector<int64_t> sh{(int64_t)v.size()}; if (r.rns()) sh.push_back(r.L()); return V::tensor(sh, d); };
              zero = zeroProduct(r, asV(a), asV(b));
            }
            go(zero ? "mulzero:" + id : o == "mul" && !ev ? "constmul:" + id : id, cat("func.func @f() -> ", p, " {\n", kk, "  %r = polynomial.", o, " %k, %l : ", p, "\n  return %r : ", p, "\n}"), {{}}, {CANON}, 2, !r.rns() || o != "mul");
          }
        }
        if (!r.rns())
          for (int s = 0; s < r.q[0]; s++) go(id, cat("func.func @f() -> ", p, " {\n", k, "  %s = mod_arith.constant ", s, " : ", c, "\n  %r = polynomial.mul_scalar %k, %s : ", p, ", ", c, "\n  return %r : ", p, "\n}"), {{}}, {CANON});
        if (!ev)
          for (int d = 0; d <= r.N() + 1; d++) go("constrot:" + id, cat("func.func @f() -> ", p, " {\n", k, "  %d = arith.constant ", d, " : index\n  %r = polynomial.monic_monomial_mul %k, %d : (", p, ", index) -> ", p, "\n  return %r : ", p, "\n}"), {{}}, {CANON}, 2, false);
      }
    }
    std::string p = r.ty();
    if (!r.rns())
      for (int s = 0; s < r.q[0]; s++)
        for (int d = 0; d < r.N(); d++) {
          std::string id = cat("constmono:", r.name(), ":", s, ":", d);
          if (!mc::mine() || !mc::begin(id)) continue;
          go(id, cat("func.func @f() -> ", p, " {\n  %s = mod_arith.constant ", s, " : ", c, "\n  %d = arith.constant ", d, " : index\n  %r = polynomial.monomial %s, %d : (", c, ", index) -> ", p, "\n  return %r : ", p, "\n}"), {{}}, {CANON});
        }
    // exponents past the degree of the ring
    for (int e = r.N(); e <= r.N() + 2; e++) {
      std::vector<int64_t> v(e + 1, 0);
      v[e] = 2; v[0] = 1;
      std::string id = cat("past:", r.name(), ":", e);
      if (!mc::mine() || !mc::begin(id)) continue;
      std::string k = cat("  %k = polynomial.constant int<", R::terms(v), "> : ", p, "\n");
      goReject(id, cat("func.func @f() -> ", p, " {\n", k, "  return %k : ", p, "\n}"), {{}});
      goReject(id, cat("func.func @f() -> ", p, " {\n", k, "  %r = polynomial.add %k, %k : ", p, "\n  return %r : ", p, "\n}"), {{}});
    }
  }
  // machine integers: only the operations that fold
  for (int w : {8, 32})
    for (auto m : {xn(2, 1), xn(3, 1), xn(2, -1)}) {
      R r{{}, w, m};
      std::string p = r.ty();
      std::vector<int64_t> co{0, 1, -1, 5, 100, -128};
      if (w == 32) co.push_back(2000000000);
      for (auto x : co)
        for (auto y : co)
          for (int e = 0; e < r.N(); e++) {
            std::string id = cat("intconst:", r.name(), ":", x, ":", y, ":", e);
            if (!mc::mine() || !mc::begin(id)) continue;
            std::vector<int64_t> a(r.N(), 0), b(r.N(), 0);
            a[e] = x; a[0] = 1; b[r.N() - 1] = y; b[0] = 2;
            std::string kk = cat("  %k = polynomial.constant int<", R::terms(a), "> : ", p, "\n  %l = polynomial.constant int<", R::terms(b), "> : ", p, "\n");
            for (std::string o : {"add", "sub", "mul"}) goReject(id, cat("func.func @f() -> ", p, " {\n", kk, "  %r = polynomial.", o, " %k, %l : ", p, "\n  return %r : ", p, "\n}"), {{}});
            go(id, cat("func.func @f() -> ", p, " {\n", kk, "  %s = arith.constant ", y, " : i", w, "\n  %r = polynomial.mul_scalar %k, %s : ", p, ", i", w, "\n  return %r : ", p, "\n}"), {{}}, {CANON}, 2, false);
            for (int d = 0; d <= r.N(); d++) go(id, cat("func.func @f() -> ", p, " {\n", kk, "  %d = arith.constant ", d, " : index\n  %r = polynomial.monic_monomial_mul %k, %d : (", p, ", index) -> ", p, "\n  return %r : ", p, "\n}"), {{}}, {CANON}, 2, false);
          }
    }
}

static std::string rootAttr(const R& r, bool inv) {
  auto v = [&](int l) {
    I128 x = po::primitiveRoot(r.q[l], 2 * r.N());
    if (inv) x = mm::inverse(x, r.q[l]);
    return cat("#mod_arith.value<", (int64_t)x, " : ", r.limb(l), ">");
  };
  std::string s = v(0);
  if (r.rns()) { s = "#rns.value<["; for (int l = 0; l < r.L(); l++) s += (l ? ", " : "") + v(l); s += "]>"; return cat("{root = #polynomial.primitive_root<value = ", s, ", degree = ", 2 * r.N(), " : i32>}"); }
  return cat("{root = #polynomial.primitive_root<value = ", s, " : ", r.coef(), ", degree = ", 2 * r.N(), " : i32>}");
}
static void ntt() {
  std::vector<R> rs{{{5}, 8, xn(2, 1)}, {{13}, 32, xn(2, 1)}, {{17}, 8, xn(4, 1)}, {{17}, 32, xn(8, 1)}, {{97}, 16, xn(4, 1)}, {{5, 13}, 8, xn(2, 1)}, {{17, 41}, 16, xn(4, 1)}};
  if (mc::thorough()) rs.insert(rs.end(), {{{97}, 16, xn(16, 1)}, {{7681}, 32, xn(8, 1)}, {{17, 97}, 32, xn(8, 1)}, {{3}, 8, xn(1, 1)}, {{5, 13, 17}, 16, xn(2, 1)}});
  for (auto& r : rs) {
    std::string p = r.ty(), e = r.ty(true);
    auto ps = polys(r, r.N(), mc::thorough() ? 2000 : 500);
    std::vector<Vs> in, two;
    for (auto& a : ps) in.push_back({a});
    for (size_t i = 0; i < ps.size(); i += 1 + ps.size() / 20) for (size_t j = 0; j < ps.size(); j += 1 + ps.size() / 20) two.push_back({ps[i], ps[j]});
    for (bool attr : {true, false}) {
      std::string f = attr ? " " + rootAttr(r, false) : "", g = attr ? " " + rootAttr(r, true) : "";
      auto one = [&](const std::string& what, const std::string& prog, const std::vector<Vs>& in) {
        std::string id = cat(what, ":", r.name(), ":", attr);
        if (!mc::mine() || !mc::begin(id)) return;
        PassStep l{"attach-ntt-roots,lower", [](OpPassManager& p) { p.addPass(polynomial::createAttachNTTRoots()); p.addPass(polynomial::createPolynomialToModArith()); p.addPass(mod_arith::createModArithToArith()); }};
        go(id, prog, in, {CANON, ROOTS}, 3, true, l);
      };
      one("ntt:round", cat("func.func @f(%a: ", p, ") -> ", p, " {\n  %n = polynomial.ntt %a", f, " : ", p, "\n  %r = polynomial.intt %n", g, " : ", e, "\n  return %r : ", p, "\n}"), in);
      one("ntt:mul", cat("func.func @f(%a: ", p, ", %b: ", p, ") -> ", p, " {\n  %n = polynomial.ntt %a", f, " : ", p, "\n  %m = polynomial.ntt %b", f, " : ", p, "\n  %x = polynomial.mul %n, %m : ", e, "\n  %r = polynomial.intt %x", g, " : ", e, "\n  return %r : ", p, "\n}"), two);
      if (attr) {
        one("ntt:forward", cat("func.func @f(%a: ", p, ") -> ", e, " {\n  %n = polynomial.ntt %a", f, " : ", p, "\n  return %n : ", e, "\n}"), in);
        one("ntt:inverse", cat("func.func @f(%a: ", e, ") -> ", p, " {\n  %n = polynomial.intt %a", g, " : ", e, "\n  return %n : ", p, "\n}"), in);
        one("sameroot", cat("func.func @f(%a: ", p, ") -> ", p, " {\n  %n = polynomial.ntt %a", f, " : ", p, "\n  %r = polynomial.intt %n", f, " : ", e, "\n  return %r : ", p, "\n}"), in);
        if (!r.rns())
          for (int c = 0; c < r.N(); c++) {
            std::vector<int64_t> k(r.N(), 0);
            k[c] = 2; k[0] += 1;
            std::string kc = cat("  %k = polynomial.constant int<", R::terms(k), "> : ");
            one(cat("nttconst:forward:", c), cat("func.func @f() -> ", e, " {\n", kc, p, "\n  %n = polynomial.ntt %k", f, " : ", p, "\n  return %n : ", e, "\n}"), {{}});
            one(cat("nttconst:mul:", c), cat("func.func @f(%a: ", p, ") -> ", p, " {\n", kc, p, "\n  %n = polynomial.ntt %k", f, " : ", p, "\n  %m = polynomial.ntt %a", f, " : ", p, "\n  %x = polynomial.mul %n, %m : ", e, "\n  %r = polynomial.intt %x", g, " : ", e, "\n  return %r : ", p, "\n}"), in);
            one(cat("inttconst:", c), cat("func.func @f() -> ", p, " {\n", kc, e, "\n  %n = polynomial.intt %k", g, " : ", e, "\n  return %n : ", p, "\n}"), {{}});
          }
      }
    }
  }
}

// Constants given by their residues: every folder.
static void rnsConstants() {
  std::vector<R> rs{{{5, 13}, 8, xn(2, 1)}, {{17, 41}, 16, xn(4, 1)}, {{5, 17}, 32, xn(2, -1)}, {{13}, 8, xn(2, 1)}, {{3, 7}, 8, xn(1, 1)}, {{5, 7}, 16, {1, 1, 1}}, {{5, 13}, 8, {2, 0, 1}}};
  if (mc::thorough()) rs.insert(rs.end(), {{{5, 13, 17}, 32, xn(2, 1)}, {{17, 97}, 32, xn(8, 1)}, {{3, 5}, 8, xn(3, 1)}});
  for (auto& r : rs) {
    bool nega = r.mod == xn(r.N(), 1);
    std::string c = "!rns.rns<";
    for (int l = 0; l < r.L(); l++) c += (l ? ", " : "") + r.limb(l);
    c += ">";
    std::vector<int64_t> m(r.mod.begin(), r.mod.end());
    auto poly = [&](bool ev, const std::string& c) { return cat("!polynomial.polynomial<ring = <coefficientType = ", c, ", polynomialModulus = <", R::terms(m), ">>", ev ? ", form = eval" : "", ">"); };
    auto ps = polys(r, r.N(), mc::thorough() ? 60 : 14);
    auto konst = [&](const std::string& n, const V& v, bool ev) {
      auto f = v.flat();
      std::string s = "[";
      for (int l = 0; l < r.L(); l++) { s += l ? ", [" : "["; for (int k = 0; k < r.N(); k++) s += cat(k ? ", " : "", (int64_t)f[k * r.L() + l].i); s += "]"; }
      return cat("  %", n, " = polynomial.constant #polynomial.rns_polynomial<dense<", s, "]> : tensor<", r.L(), "x", r.N(), "xi", r.w, ">", ev ? ", eval" : "", "> : ", poly(ev, c), "\n");
    };
    auto scalar = [&](const V& v) {
      auto f = v.flat();
      std::string s = "  %s = rns.constant <[";
      for (int l = 0; l < r.L(); l++) s += cat(l ? ", " : "", "#mod_arith.value<", (int64_t)f[l].i, " : ", r.limb(l), ">");
      return cat(s, "]> : ", c, "\n");
    };
    auto fun = [&](const std::string& id, const std::string& body, const std::string& t) { go(id, cat("func.func @f() -> ", t, " {\n", body, "  return %r : ", t, "\n}"), {{}}, {CANON}, 2, false); };
    R one = r;
    one.mod = {0, 1};  // vectors of one residue tuple
    auto ss = polys(one, 1, 30);
    for (size_t i = 0; nega && i < ps.size(); i++) {
      std::string id = cat("rnsconst:", r.name(), ":", i);
      if (!mc::mine() || !mc::begin(id)) continue;
      for (bool ev : {false, true}) {
        std::string p = poly(ev, c), k = konst("k", ps[i], ev);
        for (auto& b : ps)
          for (std::string o : {"add", "sub", "mul"}) fun(id, cat(k, konst("l", b, ev), "  %r = polynomial.", o, " %k, %l : ", p, "\n"), p);
        for (auto& s : ss) fun(id, cat(k, scalar(s), "  %r = polynomial.mul_scalar %k, %s : ", p, ", ", c, "\n"), p);
        for (int a = 0; a < r.L(); a++)
          for (int n = 1; a + n <= r.L(); n++) {
            std::string oc = "!rns.rns<";
            for (int l = 0; l < n; l++) oc += (l ? ", " : "") + r.limb(a + l);
            std::string op = poly(ev, oc + ">");
            fun(id, cat(k, "  %r = polynomial.extract_slice %k {start = ", a, " : index, size = ", n, " : index} : ", p, " -> ", op, "\n"), op);
          }
      }
      std::string p = poly(false, c), e = poly(true, c), k = konst("k", ps[i], false);
      for (int d = 0; d <= r.N() + 1; d++) fun(id, cat(k, "  %d = arith.constant ", d, " : index\n  %r = polynomial.monic_monomial_mul %k, %d : (", p, ", index) -> ", p, "\n"), p);
      if (!nega || r.q[0] % (2 * r.N()) != 1 || (r.L() > 1 && r.q[1] % (2 * r.N()) != 1)) continue;
      R rr = r;
      std::string root;
      for (int l = 0; l < r.L(); l++) root += cat(l ? ", " : "", "#mod_arith.value<", (int64_t)po::primitiveRoot(r.q[l], 2 * r.N()), " : ", r.limb(l), ">");
      fun(id, cat(k, "  %r = polynomial.ntt %k {root = #polynomial.primitive_root<value = #rns.value<[", root, "]>, degree = ", 2 * r.N(), " : i32>} : ", p, "\n"), e);
    }
    for (size_t i = 0; i < ss.size(); i++) {
      std::string id = cat("rnsconst:", r.name(), ":s", i), p = poly(false, c);
      if (!mc::mine() || !mc::begin(id)) continue;
      for (int d = 0; d < r.N(); d++) fun(id, cat(scalar(ss[i]), "  %d = arith.constant ", d, " : index\n  %r = polynomial.monomial %s, %d : (", c, ", index) -> ", p, "\n"), p);
    }
  }
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, mlir::arith::ArithDialect, func::FuncDialect, linalg::LinalgDialect, memref::MemRefDialect, scf::SCFDialect, tensor::TensorDialect, mod_arith::ModArithDialect, rns::RNSDialect, polynomial::PolynomialDialect, LLVM::LLVMDialect>();
  Driver d(reg);
  D = &d;
  single();
  constants();
  ntt();
  rnsConstants();
  return mc::finish();
}
