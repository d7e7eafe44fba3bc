// P04: rotations predicted (for key generation and cost) are the rotations performed.
#include <numeric>
#include "kernel_common.h"
#include "lib/Analysis/RotationAnalysis/RotationEvalVisitor.h"
#include "lib/Kernel/RotationCountVisitor.h"
#include "lib/Utils/RotationUtils.h"
using namespace kc;
using LNode = ArithmeticDagNode<LiteralValue>;
using LPtr = std::shared_ptr<LNode>;
using SNode = ArithmeticDagNode<SymbolicValue>;

using NumVal = dageval::Val<dageval::Num>;
static NumVal litVal(const LiteralValue& l) {
  NumVal v;
  v.shape = l.getShape();
  std::visit([&](auto&& x) {
    using X = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<X, int>) v.data = {{(double)x}};
    else if constexpr (std::is_same_v<X, std::vector<int>>) for (int i : x) v.data.push_back({(double)i});
    else for (auto& r : x) for (int i : r) v.data.push_back({(double)i});
  }, l.get());
  return v;
}

static std::string str(const std::set<int>& s) { return "{" + mc::join(s) + "}"; }

// Secrecy of every node, structurally: some operand leaf is encrypted.
template <class T, class F>
struct Secrecy {
  F leafSecret;
  std::map<const void*, bool> memo;
  std::set<const void*> rotations;  // rotation nodes whose operand is encrypted
  bool go(const std::shared_ptr<ArithmeticDagNode<T>>& p) {
    auto it = memo.find(p.get());
    if (it != memo.end()) return it->second;
    bool r = false;
    std::visit([&](auto&& x) {
      using N = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<N, LeafNode<T>>) r = leafSecret(x.value);
      else if constexpr (std::is_same_v<N, AddNode<T>> || std::is_same_v<N, SubtractNode<T>> || std::is_same_v<N, MultiplyNode<T>>) {
        bool a = go(x.left), b = go(x.right); r = a || b;
      } else if constexpr (std::is_same_v<N, LeftRotateNode<T>>) {
        r = go(x.operand);
        if (r) rotations.insert(p.get());
      } else if constexpr (std::is_same_v<N, ExtractNode<T>>) r = go(x.operand);
      else if constexpr (std::is_same_v<N, PowerNode<T>>) r = go(x.base);
    }, p->node_variant);
    return memo[p.get()] = r;
  }
};

// A: the rotation analysis of a kernel = the set of amounts the reference evaluation performs.
static void analyse(const std::string& key, const std::string& id, const LPtr& dag) {
  if (!mc::begin(id)) return;
  mc::eval();
  std::set<int> want;
  dageval::Eval<LiteralValue, dageval::Num> ev;
  ev.leaf = litVal;
  ev.onRotate = [&](const void*, int64_t n, int64_t a) { want.insert((int)(((a % n) + n) % n)); };
  try {
    ev.run(dag);
  } catch (EvalError& e) {
    mc::violate(key + ":eval", id + ": " + e.what());
    return;
  }
  mc::step(ev.steps);
  mc::doing("analysing the rotations of a kernel");
  std::set<int> got = evalRotations(dag);
  if (got != want) mc::violate(key, cat(id, ": predicted ", str(got), " performed ", str(want)));
  mc::visit(str(want));
  mc::outcome(key + str(want));
  mc::trace();
  mc::sample(id + ": " + str(want), 3);
}

static LiteralValue lvec(int64_t n, int s = 1) { std::vector<int> v(n); for (int64_t i = 0; i < n; i++) v[i] = (int)((i * s) % 3); return LiteralValue(v); }
static LiteralValue lmat(int64_t r, int64_t n) { return LiteralValue(std::vector<std::vector<int>>(r, std::vector<int>(n, 1))); }
static int64_t p2(int64_t n) { int64_t r = 1; while (r < n) r *= 2; return r; }

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();

  // A. rotate-and-reduce, rolled and unrolled, with and without plaintexts.
  for (int64_t steps = 1; steps <= (T ? 40 : 26); steps++)
    for (int64_t period = 1; period <= 4; period++)
      for (int u = 0; u < 2; u++)
        for (int pt = 0; pt < 2; pt++)
          for (int64_t slots : {steps * period, 2 * steps * period}) {
            if (!mc::mine()) continue;
            if (!pt && (steps & (steps - 1))) continue;
            auto dag = implementRotateAndReduce<LiteralValue>(
                lvec(slots), pt ? std::optional<LiteralValue>(lmat(steps, slots)) : std::nullopt, period, steps,
                DagType::intTensor(32, {slots}), {}, "arith.addi", u);
            analyse(cat("reduce:", u ? "u" : "r", pt ? ":pt" : ""), cat("reduce:s", steps, ":p", period, ":n", slots, pt ? ":pt" : "", u ? ":u" : ":r"), dag);
          }
  // Zero diagonals drop rotations in the unrolled kernel.
  for (int64_t steps : {2, 3, 4, 5, 6, 7, 8, 9})
    for (int z = 0; z < (1 << steps); z++) {
      if (!mc::mine()) continue;
      std::map<int, bool> zd;
      for (int i = 0; i < steps; i++) if (z >> i & 1) zd[i] = true;
      if (zd.size() == (size_t)steps) continue;
      int64_t slots = p2(steps) * 2;
      for (int u = 0; u < 2; u++)
        analyse(cat("zerodiag:", u ? "u" : "r"), cat("zd:s", steps, ":z", z, u ? ":u" : ":r"),
                implementRotateAndReduce<LiteralValue>(lvec(slots), std::optional<LiteralValue>(lmat(steps, slots)), 1, steps,
                                                       DagType::intTensor(32, {slots}), zd, "arith.addi", u));
    }
  // Halevi-Shoup with the trailing partial reduction.
  for (int64_t R = 1; R <= 16; R *= 2)
    for (int64_t C = R; C <= 32; C *= 2)
      for (int u = 0; u < 2; u++) {
        if (!mc::mine()) continue;
        analyse(cat("matvec:", u ? "u" : "r"), cat("hs:", R, "x", C, u ? ":u" : ":r"),
                implementHaleviShoup<LiteralValue>(lvec(C), lmat(R, C), {R, C}, DagType::intTensor(32, {C}), {}, u));
      }
  for (int64_t m = 1; m <= 7; m++)
    for (int64_t n = 1; n <= 7; n++)
      for (int64_t p = 1; p <= 7; p++) {
        if (std::gcd(m, n) != 1 || std::gcd(n, p) != 1 || std::gcd(m, p) != 1) continue;
        if (!mc::mine()) continue;
        int64_t slots = p2(m * n + n * p + m * p);
        analyse("bicyclic", cat("bic:", m, "x", n, "x", p),
                implementBicyclicMatmul<LiteralValue>(lvec(slots), lvec(slots, 2), m, n, p, DagType::intTensor(32, {slots})));
      }
  for (int64_t logN = 0; logN <= 5; logN++)
    for (int64_t logB = 0; logB <= logN; logB++)
      for (int64_t logP = 0; logB + logP <= logN; logP++)
        for (int u = 0; u < 2; u++) {
          if (!mc::mine()) continue;
          int64_t N = 1 << logN;
          analyse(cat("broadcast:", u ? "u" : "r"), cat("bc:", N, ":", 1 << logB, ":", 1 << logP, u ? ":u" : ":r"),
                  implementBroadcastedReduce<LiteralValue>(LNode::leaf(lvec(N)), LNode::leaf(lvec(N, 2)), 1 << logP, 1 << logB, N,
                                                           DagType::intTensor(32, {N}), "arith.addi", u));
        }

  // A'. Rotations inside loops with computed amounts: every small affine amount, bulk rotations,
  // nesting, captured values, step and bounds.
  for (int lo = -1; lo <= 2; lo++)
    for (int trips = 0; trips <= 4; trips++)
      for (int st = 1; st <= 3; st++)
        for (int a = -3; a <= 3; a++)
          for (int b = -2; b <= 2; b++)
            for (int shape = 0; shape < 6; shape++) {
              if (!mc::mine()) continue;
              int n = 6;
              auto idx = [&](int c) { return LNode::constantScalar(c, DagType::index()); };
              auto vt = DagType::intTensor(32, {n});
              auto amount = [&](const LPtr& iv) { return LNode::add(LNode::mul(idx(a), iv), idx(b)); };
              LPtr x = LNode::leaf(lvec(n)), y = LNode::leaf(lvec(n, 2));
              int hi = lo + trips * st;
              LPtr dag;
              switch (shape) {
                case 0: dag = LNode::loop(x, vt, lo, hi, st, [&](LPtr iv, LPtr it) { return LNode::yield({LNode::leftRotate(it, amount(iv))}); }); break;
                case 1:  // captured value rotated
                  dag = LNode::loop(x, vt, lo, hi, st, [&](LPtr iv, LPtr it) { return LNode::yield({LNode::add(it, LNode::leftRotate(y, amount(iv)))}); }); break;
                case 2:  // nested
                  dag = LNode::loop(x, vt, lo, hi, st, [&](LPtr iv, LPtr it) {
                    return LNode::yield({LNode::resultAt(LNode::loop(it, vt, 0, 2, 1, [&](LPtr jv, LPtr jt) {
                      return LNode::yield({LNode::leftRotate(jt, LNode::add(amount(iv), jv))}); }), 0)}); }); break;
                case 3:  // conditional on the induction variable
                  dag = LNode::loop(x, vt, lo, hi, st, [&](LPtr iv, LPtr it) {
                    auto c = LNode::comparison(iv, 1.0, ComparisonPredicate::LE);
                    auto e = LNode::ifElse(c, [&] { return LNode::yield({LNode::leftRotate(it, amount(iv))}); }, [&] { return LNode::yield({it}); });
                    return LNode::yield({LNode::resultAt(e, 0)}); }); break;
                case 4:  // amount carried as a loop value
                  dag = LNode::resultAt(LNode::loop({x, idx(b)}, {vt, DagType::index()}, lo, hi, st, [&](LPtr iv, const std::vector<LPtr>& it) {
                    return LNode::yield({LNode::leftRotate(it[0], it[1]), LNode::add(it[1], idx(a))}); }), 0); break;
                default:  // inserted into, and extracted from, a packed tensor
                  dag = LNode::loop(LNode::empty({2, n}, DagType::intTensor(32, {2, n})), DagType::intTensor(32, {2, n}), lo, hi, st, [&](LPtr iv, LPtr it) {
                    auto r = LNode::leftRotate(LNode::extract(it, (size_t)1), amount(iv));
                    return LNode::yield({LNode::insert(r, it, (size_t)0)}); });
              }
              analyse(cat("loop:", shape), cat("loop:", shape, ":lo", lo, ":t", trips, ":s", st, ":a", a, ":b", b), dag);
            }
  // bulk rotations: every list of up to three shifts
  for (int k = 1; k <= 3; k++)
    mc::product(std::vector<int64_t>(k, 9), [&](const std::vector<int64_t>& v) {
      if (!mc::mine()) return;
      std::string id = "bulk:" + mc::join(v);
      if (!mc::begin(id)) return;
      std::vector<LPtr> sh;
      std::set<int> want;
      for (auto s : v) { sh.push_back(LNode::constantScalar((double)(s - 4), DagType::index())); want.insert((int)(((s - 4) % 5 + 5) % 5)); }
      mc::doing("analysing a bulk rotation");
      auto got = evalRotations(LNode::leftRotateBulk(LNode::leaf(lvec(5)), sh));
      if (got != want) mc::violate("bulk", id + ": predicted " + str(got) + " performed " + str(want));
      mc::trace();
      // and the cost model counts each shift of an encrypted operand once
      std::vector<std::shared_ptr<SNode>> ssh;
      for (auto s : v) ssh.push_back(SNode::constantScalar((double)s, DagType::index()));
      for (int secret = 0; secret < 2; secret++) {
        auto d = SNode::leftRotateBulk(SNode::leaf(SymbolicValue({5}, secret)), ssh);
        RotationCountVisitor rc;
        int64_t c = rc.process(SNode::add(d, d));
        if (c != (secret ? k : 0)) mc::violate("bulk-cost", cat(id, ": counted ", c));
      }
    });

  // B. The closed-form rotation list used for key generation covers exactly the ciphertext rotations.
  for (int64_t steps = 1; steps <= (T ? 200 : 100); steps++)
    for (int64_t period = 1; period <= 5; period++)
      for (int pt = 0; pt < 2; pt++) {
        if (!mc::mine()) continue;
        std::string id = cat("keys:s", steps, ":p", period, pt ? ":pt" : "");
        if (!mc::begin(id)) continue;
        int64_t slots = steps * period;
        Sym vec({slots}, std::vector<Poly>(slots)), mat({steps, slots}, std::vector<Poly>(steps * slots));
        auto dag = implementRotateAndReduce<Sym>(vec, pt ? std::optional<Sym>(mat) : std::nullopt, period, steps, DagType::intTensor(32, {slots}));
        auto isVec = [&](const Sym& s) { return s.getShape().size() == 1; };
        Secrecy<Sym, decltype(isVec)> sec{isVec};
        sec.go(dag);
        std::set<int64_t> want, got;
        dageval::Eval<Sym, Poly> ev;
        ev.leaf = [](const Sym& s) { return s.get(); };
        ev.onRotate = [&](const void* n, int64_t m, int64_t a) {
          if (sec.rotations.count(n) && a % m) want.insert(((a % m) + m) % m);
        };
        ev.run(dag);
        mc::step(ev.steps);
        mc::doing("computing the rotation list of a rotate-and-reduce");
        for (auto r : rotateAndReduceRotationIndices(period, steps, pt)) if (((r % slots) + slots) % slots) got.insert(((r % slots) + slots) % slots);
        if (got != want) mc::violate(cat("keylist:", pt ? "pt" : "nopt"), cat(id, ": listed {", mc::join(got), "} performed {", mc::join(want), "}"));
        mc::visit("k" + mc::join(want));
        mc::outcome("k" + mc::join(want));
        mc::trace();
      }

  // C. Linear transforms: the listed rotations suffice to reach every diagonal as one giant and one
  // baby rotation, for every set of diagonals (also negative or beyond the slot count).
  for (int64_t slots : {1, 2, 4, 8})
    for (int64_t base : {(int64_t)0, -slots, slots, 3 * slots})
      for (int logRatio = -1; logRatio <= 3; logRatio++)
        for (int set = 1; set < (1 << slots); set++) {
          if (!mc::mine()) continue;
          std::string id = cat("lintrans:n", slots, ":b", base, ":r", logRatio, ":d", set);
          if (!mc::begin(id)) continue;
          std::vector<int32_t> diags;
          for (int i = 0; i < slots; i++) if (set >> i & 1) diags.push_back((int32_t)(base + (i % 3 ? i : i - 0)));
          mc::doing("computing linear-transform rotations");
          auto keys = lintransRotationIndices(diags, slots, logRatio);
          int64_t n1 = logRatio < 0 ? slots : findBestBSGSRatio(diags, slots, logRatio);
          if (n1 < 1 || n1 > slots || slots % n1) { mc::violate("lintrans-split", cat(id, ": split ", n1)); continue; }
          std::set<int64_t> have(keys.begin(), keys.end());
          std::set<int64_t> need;
          for (auto d : diags) {
            int64_t r = ((d % slots) + slots) % slots, g = r - r % n1, b = r % n1;
            if (g) need.insert(g);
            if (b) need.insert(b);
          }
          if (have != need) mc::violate("lintrans", cat(id, ": listed {", mc::join(have), "} needed {", mc::join(need), "}"));
          mc::outcome(cat("l", n1, mc::join(need)));
          mc::visit(cat("l", slots, ",", n1, mc::join(need)));
          mc::trace();
        }
  for (int64_t slots = 1; slots <= 40; slots++) {
    if (!mc::mine()) continue;
    if (!mc::begin(cat("norm:", slots))) continue;
    for (int64_t r = -200; r <= 200; r++) {
      int64_t x = normalizeRotation(r, slots);
      if (x < 0 || x >= slots || (r - x) % slots) mc::violate("normalize", cat(r, " mod ", slots, " gave ", x));
      mc::eval();
    }
    mc::trace();
  }

  // D. The rotation cost of an unrolled kernel = the number of distinct rotations of encrypted data.
  auto count = [&](const std::string& key, const std::string& id, const std::shared_ptr<SNode>& dag) {
    if (!mc::begin(id)) return;
    auto f = [](const SymbolicValue& s) { return s.isSecret(); };
    Secrecy<SymbolicValue, decltype(f)> sec{f};
    sec.go(dag);
    mc::doing("costing a kernel");
    RotationCountVisitor v;
    int64_t got = v.process(dag), again = v.process(dag);
    if (got != (int64_t)sec.rotations.size() || again != got)
      mc::violate(key, cat(id, ": cost ", got, " (again: ", again, "), rotations of encrypted data ", sec.rotations.size()));
    mc::outcome(cat(key, got));
    mc::step(sec.memo.size());
    mc::visit(cat(id, got));
    mc::trace();
  };
  for (int64_t R = 1; R <= (T ? 512 : 128); R *= 2)
    for (int64_t C = R; C <= (T ? 1024 : 256); C *= 2)
      for (int sv = 0; sv < 2; sv++)
        for (int sm = 0; sm < 2; sm++) {
          if (!mc::mine()) continue;
          std::string id = cat("cost:hs:", R, "x", C, ":", sv, sm);
          count("cost:matvec", id, implementHaleviShoup<SymbolicValue>(SymbolicValue({C}, sv), SymbolicValue({R, C}, sm), {R, C}, DagType::floatTensor(32, {C})));
          count("cost:diag", "d" + id, implementMatvec<SymbolicValue>(KernelName::MatvecDiagonal, SymbolicValue({R, C}, sm), SymbolicValue({C}, sv)));
        }
  for (int64_t steps = 1; steps <= 64; steps++)
    for (int64_t period : {1, 2, 5})
      for (int sv = 0; sv < 2; sv++) {
        if (!mc::mine()) continue;
        int64_t n = steps * period;
        count("cost:bsgs", cat("cost:bsgs:", steps, ":", period, ":", sv),
              implementRotateAndReduce<SymbolicValue>(SymbolicValue({n}, sv), std::optional<SymbolicValue>(SymbolicValue({steps, n}, false)), period, steps, DagType::floatTensor(32, {n})));
        count("cost:acc", cat("cost:acc:", steps, ":", period, ":", sv),
              implementRotateAndReduce<SymbolicValue>(SymbolicValue({n}, sv), std::nullopt, period, steps, DagType::floatTensor(32, {n})));
      }
  for (int64_t m = 1; m <= 9; m++)
    for (int64_t n = 1; n <= 9; n++)
      for (int64_t p = 1; p <= 9; p++) {
        if (std::gcd(m, n) != 1 || std::gcd(n, p) != 1 || std::gcd(m, p) != 1) continue;
        if (!mc::mine()) continue;
        int64_t slots = p2(m * n + n * p + m * p);
        for (int sa = 0; sa < 2; sa++)
          for (int sb = 0; sb < 2; sb++)
            count("cost:bicyclic", cat("cost:bic:", m, "x", n, "x", p, ":", sa, sb),
                  implementBicyclicMatmul<SymbolicValue>(SymbolicValue({slots}, sa), SymbolicValue({slots}, sb), m, n, p, DagType::floatTensor(32, {slots})));
      }
  // every small DAG of rotations, sums and products over one encrypted and one plain leaf
  {
    struct B { std::vector<std::shared_ptr<SNode>> pool; };
    int depth = T ? 5 : 4;
    std::vector<std::shared_ptr<SNode>> pool = {SNode::leaf(SymbolicValue({4}, true)), SNode::leaf(SymbolicValue({4}, false))};
    std::function<void(int, std::string)> rec = [&](int d, std::string id) {
      if (d == depth) {
        if (!mc::mine()) return;
        count("cost:dag", "cost:dag:" + id, pool.back());
        return;
      }
      size_t n = pool.size();
      for (size_t i = 0; i < n; i++) {
        for (int op = 0; op < 2; op++) {
          if (op == 0) { pool.push_back(SNode::leftRotate(pool[i], (int64_t)1)); rec(d + 1, id + cat("r", i, ".")); pool.pop_back(); }
          else for (size_t j = 0; j <= i; j++) {
            if (d < depth - 2 && j + 1 < i) continue;
            pool.push_back(SNode::mul(pool[i], pool[j])); rec(d + 1, id + cat("m", i, "_", j, ".")); pool.pop_back();
            pool.push_back(SNode::sub(pool[j], pool[i])); rec(d + 1, id + cat("s", j, "_", i, ".")); pool.pop_back();
          }
        }
      }
    };
    rec(0, "");
  }
  return mc::finish();
}
