// P19: rotation-level rewriting of packed tensors keeps the meaning.
#include "lib/Dialect/HEIRInterfaces.h"
#include "lib/Dialect/TensorExt/Conversions/TensorExtToTensor/TensorExtToTensor.h"
#include "lib/Dialect/TensorExt/Transforms/Passes.h"
#include "ctmc.h"
#include "mlir/Dialect/Tensor/Transforms/Transforms.h"
using namespace pm;
using namespace mlir::heir;

static Driver* D;
static std::string key(const std::string& id) { return id.substr(0, id.find(':')); }
static std::string T(std::vector<int64_t> s, const std::string& e = "i16") { return "tensor<" + (s.empty() ? "" : mc::join(s, "x") + "x") + e + ">"; }
static V vars(std::vector<int64_t> sh, int base) {
  std::vector<Sc> d;
  int64_t n = 1; for (auto s : sh) n *= s;
  for (int k = 0; k < n; k++) d.push_back(Sc::var(base + k));
  return V::tensor(sh, d);
}
static V idx(int64_t v) { return V::scalar(Sc::in(v)); }
static const PassStep canon{"canonicalize", [](OpPassManager& p) { p.addPass(createCanonicalizerPass()); }};
static const PassStep cse{"cse", [](OpPassManager& p) { p.addPass(createCSEPass()); }};
static const PassStep insertRotate{"insert-rotate", [](OpPassManager& p) { p.addPass(tensor_ext::createInsertRotate()); }};
static const PassStep collapse{"collapse-insertion-chains", [](OpPassManager& p) { p.addPass(tensor_ext::createCollapseInsertionChains()); }};
static const PassStep rotred{"rotate-and-reduce", [](OpPassManager& p) { p.addPass(tensor_ext::createRotateAndReduce()); }};
static const PassStep shiftnet{"implement-shift-network", [](OpPassManager& p) { p.addPass(tensor_ext::createImplementShiftNetwork()); }};
static const PassStep toTensor{"tensor-ext-to-tensor", [](OpPassManager& p) { p.addPass(tensor_ext::createTensorExtToTensor()); }};
static PassStep implRR(bool unroll) {
  return {unroll ? "implement-rotate-and-reduce" : "implement-rotate-and-reduce-rolled", [unroll](OpPassManager& p) { tensor_ext::ImplementRotateAndReduceOptions o; o.unroll = unroll; p.addPass(tensor_ext::createImplementRotateAndReduce(o)); }};
}
static void go(const std::string& id, const std::string& prog, const std::vector<PassStep>& steps, int depth, const std::vector<Vs>& in) {
  mc::doing(key(id));
  mc::guarded([&] { explore(*D, key(id), prog, "f", steps, depth, in, ct::setup); });
}

// Straight-line programs of rotations and SIMD arithmetic.
static void algebra() {
  struct Cfg { std::vector<int64_t> sh; std::string e; int len; };
  std::vector<Cfg> cfgs{{{1}, "i16", 2}, {{2}, "i16", 2}, {{3}, "i16", 3}, {{4}, "i16", 2}, {{3}, "f32", 2}, {{2, 3}, "i16", 2}, {{3, 2}, "i16", 2}, {{1, 3}, "i16", 2}};
  if (mc::thorough()) cfgs = {{{1}, "i16", 3}, {{2}, "i16", 3}, {{3}, "i16", 3}, {{4}, "i16", 3}, {{5}, "i16", 2}, {{3}, "f32", 3}, {{2, 3}, "i16", 3}, {{3, 2}, "i16", 3}, {{1, 3}, "i16", 3}};
  for (auto& c : cfgs) {
    bool fl = c.e[0] == 'f';
    std::string t = T(c.sh, c.e);
    int64_t n = c.sh.back(), size = 1;
    for (auto s : c.sh) size *= s;
    std::vector<int64_t> shifts{0, 1, n - 1, n, n + 1, -1};
    if (mc::thorough()) { shifts.push_back(-n - 1); shifts.push_back(2 * n + 1); }
    std::sort(shifts.begin(), shifts.end());
    shifts.erase(std::unique(shifts.begin(), shifts.end()), shifts.end());
    std::string consts, dense;
    for (auto s : shifts) consts += cat("  %c", s < 0 ? "m" : "", std::abs(s), " = arith.constant ", s, " : index\n");
    consts += "  %w1 = arith.constant 1 : i32\n";
    std::string splat = fl ? "2.0" : "2", el;
    { int v = 3; std::function<std::string(size_t)> rec = [&](size_t d) -> std::string { if (d == c.sh.size()) return cat(v++, fl ? ".0" : ""); std::string r = "["; for (int64_t k = 0; k < c.sh[d]; k++) r += (k ? ", " : "") + rec(d + 1); return r + "]"; }; el = rec(0); }
    consts += "  %k = arith.constant dense<" + splat + "> : " + t + "\n  %d = arith.constant dense<" + el + "> : " + t + "\n";
    std::vector<Vs> in;
    for (int64_t s : {(int64_t)0, (int64_t)1, n + 1}) in.push_back({vars(c.sh, 0), vars(c.sh, size), idx(s)});
    // used[v]: results that something uses
    std::function<void(int, std::vector<std::string>, std::vector<bool>, std::string, std::string)> rec = [&](int len, std::vector<std::string> vals, std::vector<bool> used, std::string body, std::string id) {
      size_t first = vals.size() - len;
      if (len) {
        bool all = true;
        for (size_t k = first; k + 1 < vals.size(); k++) all &= (bool)used[k];
        if (all) {
          std::string cid = cat("algebra:", mc::join(c.sh, "x"), c.e, id);
          if (mc::mine() && mc::begin(cid)) {
            std::string prog = "func.func @f(%a: " + t + ", %b: " + t + ", %s: index) -> " + t + " {\n" + consts + body + "  return %" + vals.back() + " : " + t + "\n}";
            go(cid, prog, {canon, insertRotate, toTensor}, 1, in);
          }
        }
      }
      if (len == c.len) return;
      // the last operation has to use whatever is unused so far
      int unused = 0;
      for (size_t k = first; k < vals.size(); k++) unused += !used[k];
      bool last = len + 1 == c.len;
      std::string r = cat("v", len);
      auto step = [&](const std::string& line, std::vector<size_t> us, const std::string& what) {
        auto u = used;
        for (auto k : us) u[k] = true;
        if (last) { for (size_t k = first; k < vals.size(); k++) if (!u[k]) return; }
        auto v = vals;
        v.push_back(r); u.push_back(false);
        rec(len + 1, v, u, body + "  %" + r + " = " + line + "\n", id + ":" + what);
      };
      for (size_t x = 0; x < vals.size(); x++) {
        for (auto s : shifts) {
          std::string cn = cat("c", s < 0 ? "m" : "", std::abs(s));
          step("tensor_ext.rotate %" + vals[x] + ", %" + cn + " : " + t + ", index", {x}, "r" + vals[x] + cn);
        }
        step("tensor_ext.rotate %" + vals[x] + ", %s : " + t + ", index", {x}, "r" + vals[x] + "s");
        step("tensor_ext.rotate %" + vals[x] + ", %w1 : " + t + ", i32", {x}, "r" + vals[x] + "w1");
        for (size_t y = 0; y < vals.size(); y++)
          for (auto op : {"add", "sub", "mul"}) {
            if (op != std::string("sub") && c.len == 3 && y < x) continue;  // operand order is covered with two operations
            step(cat("arith.", op, fl ? "f" : "i", " %", vals[x], ", %", vals[y], " : ", t), {x, y}, cat(op[0], vals[x], vals[y]));
          }
      }
    };
    std::vector<std::string> base = c.len == 3 && !mc::thorough() ? std::vector<std::string>{"a", "b"} : std::vector<std::string>{"a", "b", "k", "d"};
    rec(0, base, std::vector<bool>(base.size(), false), "", "");
  }
}

// Scalar code on tensor elements: extract, compute, insert.
static void simd() {
  struct Cfg { std::vector<int64_t> a, b; std::string e; int len; };
  std::vector<Cfg> cfgs{{{2}, {2}, "i16", 2}, {{3}, {3}, "f32", 1}, {{3}, {2}, "i16", 1}, {{2}, {2, 2}, "i16", 1}, {{3}, {3}, "i16", 1}};
  if (mc::thorough()) { cfgs[1].len = 2; cfgs[2].len = 2; cfgs[4].len = 2; }
  for (auto& c : cfgs) {
    bool fl = c.e[0] == 'f';
    std::string ta = T(c.a, c.e), tb = T(c.b, c.e), consts, ex;
    int64_t n = c.a[0], nb = 1;
    for (auto s : c.b) nb *= s;
    for (int64_t k = 0; k < std::max<int64_t>(n, 2); k++) consts += cat("  %c", k, " = arith.constant ", k, " : index\n");
    consts += "  %k = arith.constant " + std::string(fl ? "5.0" : "5") + " : " + c.e + "\n";
    std::vector<std::string> leaves{"k"};
    for (int64_t k = 0; k < n; k++) { leaves.push_back(cat("a", k)); ex += cat("  %a", k, " = tensor.extract %a[%c", k, "] : ", ta, "\n"); }
    for (int64_t k = 0; k < nb; k++) {
      leaves.push_back(cat("b", k));
      ex += cat("  %b", k, " = tensor.extract %b[", c.b.size() == 1 ? cat("%c", k) : cat("%c", k / c.b[1], ", %c", k % c.b[1]), "] : ", tb, "\n");
    }
    std::vector<Vs> in{{vars(c.a, 0), vars(c.b, n), vars(c.a, n + nb)}};
    std::function<void(int, std::vector<std::string>, std::string, std::string)> rec = [&](int len, std::vector<std::string> vals, std::string body, std::string id) {
      if (len) {
        // return the scalar, put it into a slot of a tensor, or into two slots
        for (int ret = 0; ret < 2 + (int)n; ret++) {
          std::string cid = cat("simd:", mc::join(c.a, "x"), "_", mc::join(c.b, "x"), c.e, id, ":", ret);
          if (!mc::mine() || !mc::begin(cid)) continue;
          std::string v = "%" + vals.back(), tail, rt = ta;
          if (ret == 0) { tail = "  return " + v + " : " + c.e + "\n"; rt = c.e; }
          else if (ret <= n) tail = cat("  %o = tensor.insert ", v, " into %z[%c", ret - 1, "] : ", ta, "\n  return %o : ", ta, "\n");
          else tail = cat("  %p = tensor.insert ", v, " into %z[%c0] : ", ta, "\n  %o = tensor.insert ", v, " into %p[%c1] : ", ta, "\n  return %o : ", ta, "\n");
          std::string prog = "func.func @f(%a: " + ta + ", %b: " + tb + ", %z: " + ta + ") -> " + rt + " {\n" + consts + ex + body + tail + "}";
          go(cid, prog, {insertRotate, canon, cse, rotred}, mc::thorough() ? 4 : 3, in);
        }
      }
      if (len == c.len) return;
      std::string r = cat("v", len);
      for (size_t x = 0; x < vals.size(); x++)
        for (size_t y = 0; y < vals.size(); y++) {
          if (len && x != vals.size() - 1 && y != vals.size() - 1) continue;
          if (vals[x] == "k" && vals[y] == "k") continue;
          for (auto op : {"add", "sub", "mul"}) {
            if (len && op == std::string("mul")) continue;
            auto v = vals;
            v.push_back(r);
            rec(len + 1, v, body + cat("  %", r, " = arith.", op, fl ? "f" : "i", " %", vals[x], ", %", vals[y], " : ", c.e, "\n"), cat(id, ":", op, vals[x], vals[y]));
          }
        }
    };
    rec(0, leaves, "", "");
  }
}

// Elements of rotated tensors, inserted into tensors of any size.
static void extracts() {
  for (auto& sh : std::vector<std::vector<int64_t>>{{1}, {2}, {3}, {2, 3}, {1, 3}})
    for (int64_t zn : {1, 2, 4})
      for (std::string it : {"index", "i32"})
        for (int64_t s = -sh.back() - 1; s <= sh.back() + 2; s++)          // the last one: the argument
          for (int64_t k = 0; k <= sh.back(); k++)                          // the last one: the argument
            for (int64_t z = 0; z < zn; z++)
              for (int form = 0; form < 3; form++) {
                bool ds = s == sh.back() + 2, dk = k == sh.back();
                std::string t = T(sh), tz = T({zn});
                std::string cid = cat("extract:", mc::join(sh, "x"), ":", zn, ":", it, ":", s, ":", k, ":", z, ":", form);
                if (!mc::mine() || !mc::begin(cid)) continue;
                std::string row = sh.size() > 1 ? "%r, " : "";
                std::string body = "  %r = arith.constant " + cat(sh[0] - 1) + " : index\n  %z = arith.constant " + cat(z) + " : index\n";
                body += ds ? "" : cat("  %sc = arith.constant ", s, " : ", it, "\n");
                body += dk ? "" : cat("  %kc = arith.constant ", k, " : index\n");
                body += "  %0 = tensor_ext.rotate %a, " + std::string(ds ? "%s" : "%sc") + " : " + t + ", " + it + "\n";
                body += "  %1 = tensor.extract %0[" + row + (dk ? "%k" : "%kc") + "] : " + t + "\n";
                std::string v = "%1";
                if (form == 1) { body += "  %5 = arith.constant 5 : i16\n  %2 = arith.subi %5, %1 : i16\n"; v = "%2"; }
                if (form == 2) { body += "  %2 = tensor.extract %a[" + row + "%r] : " + t + "\n  %3 = arith.addi %1, %2 : i16\n"; v = "%3"; if (sh[0] - 1 >= sh.back()) continue; }
                std::string prog = "func.func @f(%a: " + t + ", %o: " + tz + ", %s: " + it + ", %k: index) -> " + tz + " {\n" + body + "  %9 = tensor.insert " + v + " into %o[%z] : " + tz + "\n  return %9 : " + tz + "\n}";
                std::vector<Vs> in;
                for (int64_t sv = ds ? -sh.back() : 0; sv <= (ds ? sh.back() + 1 : 0); sv++)
                  for (int64_t kv = 0; kv < (dk ? sh.back() : 1); kv++) in.push_back({vars(sh, 0), vars({zn}, 20), idx(sv), idx(kv)});
                go(cid, prog, {insertRotate, canon}, 2, in);
              }
}

// Sums and products of rotations of a vector, complete or not, in several groupings.
static void reductions() {
  for (std::string e : {"i16", "f32"})
    for (int64_t n = 1; n <= (mc::thorough() ? 5 : 4); n++)
      for (std::string op : {"add", "mul"}) {
        bool fl = e[0] == 'f';
        std::string t = T({n}, e), consts;
        for (int64_t k = 0; k <= n; k++) consts += cat("  %c", k, " = arith.constant ", k, " : index\n");
        // which shifts are summed: every multiset of size n-1..n+1 for small n, permutations with one change otherwise
        std::vector<std::vector<int64_t>> lists;
        std::function<void(std::vector<int64_t>, size_t)> gen = [&](std::vector<int64_t> l, size_t want) {
          if (l.size() == want) { lists.push_back(l); return; }
          for (int64_t s = n <= 3 ? 0 : l.empty() ? 0 : 0; s < n; s++) {
            if (n > 3 && !l.empty() && s < l.back()) continue;  // sorted for larger n
            auto m = l; m.push_back(s); gen(m, want);
          }
        };
        for (int64_t w = std::max<int64_t>(1, n - 1); w <= n + (n < 4); w++) gen({}, w);
        for (auto& l : lists)
          for (int scalar = 0; scalar < 2; scalar++)
            for (int group = 0; group < 3; group++)
              for (int extra = -1; extra <= (int)l.size() && extra < 4; extra++)
                for (int also = 0; also < 2; also++) {
                  if (op == "mul" && (also || (int)l.size() > n)) continue;
                  if (e == "f32" && (also || group == 2)) continue;
                  if (group && l.size() < 3) continue;
                  std::string cid = cat("reduce:", e, op, n, ":", mc::join(l, "_"), ":", scalar, group, extra, also);
                  if (!mc::mine() || !mc::begin(cid)) continue;
                  std::string rt = scalar ? e : t, body;
                  std::vector<std::string> leaf;
                  for (size_t k = 0; k < l.size(); k++) {
                    if (scalar) body += cat("  %l", k, " = tensor.extract %a[%c", l[k], "] : ", t, "\n");
                    else if (l[k] == 0) { leaf.push_back("a"); continue; }
                    else body += cat("  %l", k, " = tensor_ext.rotate %a, %c", l[k], " : ", t, ", index\n");
                    leaf.push_back(cat("l", k));
                  }
                  if (extra >= 0) leaf.insert(leaf.begin() + extra, scalar ? "x" : "b");
                  if (scalar) body += cat("  %x = tensor.extract %b[%c0] : ", t, "\n");
                  int cnt = 0;
                  auto bin = [&](const std::string& x, const std::string& y) { std::string r = cat("r", cnt++); body += cat("  %", r, " = arith.", op, fl ? "f" : "i", " %", x, ", %", y, " : ", rt, "\n"); return r; };
                  std::string mid, acc;
                  if (group == 0) { acc = leaf[0]; for (size_t k = 1; k < leaf.size(); k++) { acc = bin(acc, leaf[k]); if (k == leaf.size() - 2) mid = acc; } }
                  else if (group == 1) { acc = leaf.back(); for (size_t k = leaf.size() - 1; k--;) { acc = bin(leaf[k], acc); if (k == 1) mid = acc; } }
                  else {
                    auto cur = leaf;
                    while (cur.size() > 1) { std::vector<std::string> nx; for (size_t k = 0; k + 1 < cur.size(); k += 2) nx.push_back(bin(cur[k], cur[k + 1])); if (cur.size() % 2) nx.push_back(cur.back()); cur = nx; mid = cur[0]; }
                    acc = cur[0];
                  }
                  if (mid.empty() || !also) mid = acc;
                  std::string prog = "func.func @f(%a: " + t + ", %b: " + t + ") -> (" + rt + ", " + rt + ") {\n" + consts + body + "  return %" + acc + ", %" + mid + " : " + rt + ", " + rt + "\n}";
                  go(cid, prog, {rotred, canon}, 2, {{vars({n}, 0), vars({n}, (int)n)}});
                }
      }
}

// rotate_and_reduce operations and their lowering.
static void lowerReduce() {
  int64_t N = mc::thorough() ? 16 : 9;
  for (int64_t n = 1; n <= N; n++)
    for (int two = 0; two < 2; two++)
      for (int64_t period = 1; period <= n; period++)
        for (int64_t steps = 1; steps <= n; steps++)
          for (int pt = 0; pt < 2; pt++)
            for (std::string red : {"", "arith.addi", "arith.muli", "arith.addf", "arith.mulf"}) {
              bool fl = red.size() && red.back() == 'f', mul = red.find("mul") != std::string::npos;
              if (two && (n == 1 || period > 2)) continue;
              if (mul && (n > 6 || pt)) continue;
              if (fl && n > 4) continue;
              std::string cid = cat("lower:", n, ":", two, ":", period, ":", steps, ":", pt, ":", red);
              if (!mc::mine() || !mc::begin(cid)) continue;
              std::string e = fl ? "f32" : "i16";
              std::vector<int64_t> sh = two ? std::vector<int64_t>{1, n} : std::vector<int64_t>{n};
              std::string t = T(sh, e), pts = T({steps, n}, e);
              std::string attr = cat("period = ", period, " : index, steps = ", steps, " : index", red.empty() ? "" : ", reduceOp = \"" + red + "\"");
              std::string prog = "func.func @f(%a: " + t + ", %p: " + pts + ") -> " + t + " {\n  %0 = \"tensor_ext.rotate_and_reduce\"(%a" + (pt ? ", %p" : "") + ") {" + attr + "} : (" + t + (pt ? ", " + pts : "") + ") -> " + t + "\n  return %0 : " + t + "\n}";
              go(cid, prog, {implRR(true), implRR(false)}, 1, {{vars(sh, 0), vars({steps, n}, (int)n)}});
            }
}

// remap: every partial function from target slots to source slots.
static void remaps() {
  std::vector<std::pair<int, int>> dims{{1, 1}, {1, 2}, {1, 4}, {2, 2}, {3, 1}};
  if (mc::thorough()) { dims.push_back({5, 1}); dims.push_back({3, 2}); }
  for (auto [cts, n] : dims) {
    int64_t total = cts * n, combos = 1;
    for (int k = 0; k < total; k++) combos *= total + 1;
    std::string t = T({cts, n});
    for (int64_t code = 0; code < combos; code++) {
      std::vector<int64_t> m;
      int64_t x = code;
      int used = 0;
      for (int tg = 0; tg < total; tg++, x /= total + 1) {
        int64_t src = x % (total + 1) - 1;
        if (src < 0) continue;
        used++;
        for (int64_t v : {src / n, src % n, tg / (int64_t)n, tg % (int64_t)n}) m.push_back(v);
      }
      if (!used || (total == 6 && used < 5)) continue;
      std::string cid = cat("remap:", cts, "x", n, ":", code);
      if (!mc::mine() || !mc::begin(cid)) continue;
      std::string el;
      for (int k = 0; k < used; k++) el += cat(k ? ", " : "", "[", m[4 * k], ", ", m[4 * k + 1], ", ", m[4 * k + 2], ", ", m[4 * k + 3], "]");
      std::string prog = "func.func @f(%a: " + t + ") -> " + t + " {\n  %0 = tensor_ext.remap %a {permutation = dense<[" + el + "]> : tensor<" + cat(used) + "x4xi64>} : " + t + "\n  return %0 : " + t + "\n}";
      go(cid, prog, {shiftnet}, 1, {{vars({cts, n}, 0)}});
    }
  }
}

// Rotations as slices, with constant and computed shifts.
static void asSlices() {
  for (auto& sh : std::vector<std::vector<int64_t>>{{1}, {2}, {3}, {5}, {2, 3}, {3, 1}, {2, 2, 2}})
    for (std::string it : {"index", "i32", "i64"})
      for (int dyn = 0; dyn < 2; dyn++)
        for (int64_t s = -sh.back() * 2; s <= sh.back() * 2; s++) {
          if (dyn && s != 0) continue;
          std::string cid = cat("slices:", mc::join(sh, "x"), ":", it, ":", dyn, ":", s);
          if (!mc::mine() || !mc::begin(cid)) continue;
          std::string t = T(sh);
          std::string prog = "func.func @f(%a: " + t + ", %s: " + it + ") -> " + t + " {\n" + (dyn ? "" : cat("  %c = arith.constant ", s, " : ", it, "\n")) + "  %0 = tensor_ext.rotate %a, %" + (dyn ? "s" : "c") + " : " + t + ", " + it + "\n  return %0 : " + t + "\n}";
          std::vector<Vs> in;
          for (int64_t v = dyn ? -2 * sh.back() : 0; v <= (dyn ? 2 * sh.back() : 0); v++) in.push_back({vars(sh, 0), idx(v)});
          go(cid, prog, {toTensor, canon}, 2, in);
        }
}

// Chains of insertions of extracted elements.
static void chains() {
  struct Cfg { int64_t n, len; bool fork; };
  std::vector<Cfg> cfgs{{2, 2, true}, {2, 3, false}, {3, 3, false}, {1, 1, true}};
  if (mc::thorough()) { cfgs.push_back({3, 3, true}); cfgs.push_back({2, 4, true}); }
  for (auto c : cfgs) {
    int64_t per = c.n * c.n * 2, combos = 1;
    for (int k = 0; k < c.len; k++) combos *= per;
    for (int64_t code = 0; code < combos; code++)
      for (int fork = 0; fork <= (c.fork ? c.len : 0); fork++)
        for (int sz = 0; sz < (c.len == 2 ? 2 : 1); sz++) {
          // step k: source tensor (a or b), source index, target index
          int64_t x = code;
          int bs = 0;
          std::string body, consts, t = T({c.n + sz}), ts = T({c.n});
          for (int64_t k = 0; k <= c.n; k++) consts += cat("  %c", k, " = arith.constant ", k, " : index\n");
          std::string cur = "z";
          for (int k = 0; k < c.len; k++, x /= per) {
            int64_t q = x % per, si = q % c.n, ti = q / c.n % c.n, from = q / (c.n * c.n);
            bs += from;
            std::string dest = fork == k + 1 ? "z" : cur;  // a second chain starts at the original destination
            body += cat("  %e", k, " = tensor.extract %", from ? "b" : "a", "[%c", si, "] : ", ts, "\n  %i", k, " = tensor.insert %e", k, " into %", dest, "[%c", ti, "] : ", t, "\n");
            cur = cat("i", k);
          }
          if (bs > 1 && c.len > 2) continue;
          if (fork && bs) continue;
          std::string cid = cat("chains:", c.n, ":", c.len, ":", code, ":", fork, ":", sz);
          if (!mc::mine() || !mc::begin(cid)) continue;
          std::string other = c.len > 1 ? cat("i", c.len - 2) : "z";
          bool two = fork || code % 3 == 0;
          if (!two) other = cur;
          std::string prog = "func.func @f(%a: " + ts + ", %b: " + ts + ", %z: " + t + ") -> (" + t + ", " + t + ") {\n" + consts + body + "  return %" + cur + ", %" + other + " : " + t + ", " + t + "\n}";
          go(cid, prog, {collapse, canon}, 2, {{vars({c.n}, 0), vars({c.n}, (int)c.n), vars({c.n + sz}, 2 * (int)c.n)}});
        }
  }
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, tensor_ext::TensorExtDialect>();
  registerOperandAndResultAttrInterface(reg);
  Driver d(reg);
  D = &d;
  algebra();
  simd();
  extracts();
  reductions();
  lowerReduce();
  remaps();
  asSlices();
  chains();
  return mc::finish();
}
