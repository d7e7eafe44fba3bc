// P05: evaluating a kernel DAG gives the meaning of its nodes, whatever is shared, cached or looped.
#include "dageval.h"
#include "lib/Kernel/EvalVisitor.h"
#include "mc.h"
using namespace mlir::heir::kernel;
using mc::cat;
using Node = ArithmeticDagNode<LiteralValue>;
using Ptr = std::shared_ptr<Node>;
using NumVal = dageval::Val<dageval::Num>;

static NumVal litVal(const LiteralValue& l) {
  NumVal v;
  v.shape = l.getShape();
  std::visit([&](auto&& x) {
    using X = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<X, int>) v.data = {{(double)x}};
    else if constexpr (std::is_same_v<X, std::vector<int>>) for (int i : x) v.data.push_back({(double)i});
    else for (auto& r : x) for (int i : r) v.data.push_back({(double)i});
  }, l.get());
  return v;
}
static std::string show(const NumVal& v) {
  std::string s = "[" + mc::join(v.shape, "x") + ":";
  for (auto& d : v.data) s += cat(d.v, " ");
  return s + "]";
}
static bool tooBig(const NumVal& v) { for (auto& d : v.data) if (std::fabs(d.v) > 1e8) return true; return false; }

// kinds: 0 scalar, 1 vector of 4, 2 matrix 2x4
struct Item { Ptr p; int kind; };
using Pool = std::vector<Item>;
static DagType typeOf(int k) { return k == 0 ? DagType::index() : k == 1 ? DagType::intTensor(32, {4}) : DagType::intTensor(32, {2, 4}); }

// Every single operation over the pool.
static void eachOp(const Pool& pool, bool full, const std::function<void(const Item&, const std::string&)>& f) {
  for (size_t i = 0; i < pool.size(); i++)
    for (size_t j = 0; j < pool.size(); j++) {
      const Item &a = pool[i], &b = pool[j];
      if (a.kind == b.kind && a.kind < 2) {
        f({Node::sub(a.p, b.p), a.kind}, cat("sub", i, "_", j));
        if (j <= i) { f({Node::add(a.p, b.p), a.kind}, cat("add", i, "_", j)); f({Node::mul(a.p, b.p), a.kind}, cat("mul", i, "_", j)); }
      }
      if (a.kind == 0 && b.kind == 0) {
        for (auto pr : {ComparisonPredicate::LT, ComparisonPredicate::LE, ComparisonPredicate::GT, ComparisonPredicate::GE, ComparisonPredicate::EQ, ComparisonPredicate::NE})
          f({Node::comparison(a.p, b.p, pr), 0}, cat("cmp", (int)pr, "_", i, "_", j));
      }
      if (a.kind >= 1 && b.kind == 0) {
        if (a.kind == 1) f({Node::leftRotate(a.p, b.p), 1}, cat("rot", i, "_", j));
        f({Node::extract(a.p, b.p), a.kind - 1}, cat("ext", i, "_", j));
        for (size_t k = 0; k < pool.size(); k++) {
          if (pool[k].kind == a.kind - 1) f({Node::insert(pool[k].p, a.p, b.p), a.kind}, cat("ins", k, "_", i, "_", j));
          if (!full) continue;
        }
      }
      if (a.kind == 0 && b.kind <= 1)
        for (size_t k = 0; k < pool.size(); k++)
          if (pool[k].kind == b.kind && k != j)
            f({Node::resultAt(Node::ifElse(a.p, Node::yield({b.p}), Node::yield({pool[k].p})), 0), b.kind}, cat("if", i, "_", j, "_", k));
    }
  for (size_t i = 0; i < pool.size(); i++) {
    if (pool[i].kind <= 1) { f({Node::floorDiv(pool[i].p, 2), pool[i].kind}, cat("div", i)); }
    if (pool[i].kind == 1) for (int s : {-1, 5}) f({Node::leftRotate(pool[i].p, (int64_t)s), 1}, cat("rotc", i, "_", s));
  }
}


static void judge(const std::string& key, const std::string& id, const std::vector<Ptr>& roots) {
  if (!mc::begin(id)) return;
  std::vector<std::vector<NumVal>> want;
  try {
    for (auto& r : roots) {
      dageval::Eval<LiteralValue, dageval::Num> ev;
      ev.leaf = litVal;
      want.push_back(ev.run(r));
      mc::step(ev.steps);
      for (auto& v : want.back()) if (tooBig(v)) { mc::count("skipped_overflow"); return; }
    }
  } catch (dageval::EvalError&) {
    mc::count("skipped_undefined");  // index out of bounds: no meaning to compare
    return;
  }
  mc::eval();
  mc::doing("evaluating a DAG");
  std::vector<EvalResults> got;
  if (roots.size() == 1) got.push_back(evalKernel(roots[0]));
  else got = multiEvalKernel(roots);
  for (size_t i = 0; i < roots.size(); i++) {
    bool ok = got[i].size() == want[i].size();
    for (size_t k = 0; ok && k < got[i].size(); k++) ok = litVal(got[i][k]) == want[i][k];
    if (!ok) {
      std::string g, w;
      for (auto& x : got[i]) g += show(litVal(x));
      for (auto& x : want[i]) w += show(x);
      mc::violate(key, cat(id, ": root ", i, " evaluates to ", g, " expected ", w));
      return;
    }
    for (auto& x : want[i]) { mc::visit(show(x)); mc::outcome(show(x)); }
  }
  mc::trace();
  mc::sample(cat(id, " = ", show(want[0][0])), 3);
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  auto C = [](int c) { return Node::constantScalar(c, DagType::index()); };
  LiteralValue lv(std::vector<int>{3, 1, 4, 7}), lm(std::vector<std::vector<int>>{{1, 2, 3, 4}, {9, 8, 7, 6}});
  auto basePool = [&]() -> Pool {
    return {{Node::leaf(lv), 1}, {Node::leaf(lm), 2}, {C(1), 0}, {C(0), 0}, {C(3), 0},
            {Node::splat(2, DagType::intTensor(32, {4})), 1}, {Node::empty({4}, DagType::intTensor(32, {4})), 1}};
  };

  // A. Straight-line programs of two operations (the second may use the first twice), two roots.
  {
    Pool p = basePool();
    eachOp(p, true, [&](const Item& a, const std::string& ia) {
      if (!mc::mine()) return;
      judge("one", ia, {a.p});
      Pool q = p;
      q.push_back(a);
      eachOp(q, false, [&](const Item& b, const std::string& ib) {
        judge("two", ia + ";" + ib, {b.p});
        judge("roots", ia + ";" + ib + ":ab", {a.p, b.p, a.p});
      });
    });
  }
  // constants and tensors
  if (mc::mine())
    for (int c = -5; c <= 5; c++) {
      judge("const", cat("c", c), {C(c)});
      judge("const", cat("ct", c), {Node::constantTensor({(double)c, 1, 2}, DagType::intTensor(32, {3}))});
      judge("const", cat("sp", c), {Node::splat(c, DagType::intTensor(32, {5}))});
      judge("const", cat("spf", c), {Node::splat(c, DagType::floatTensor(32, {5}))});
      judge("const", cat("sps", c), {Node::splat(c, DagType::integer(32))});
      judge("const", cat("em", c), {Node::empty({3, 2}, DagType::intTensor(32, {3, 2}))});
      for (int r = -9; r <= 9; r++) judge("rotate", cat("rot", r), {Node::leftRotate(Node::leaf(lv), (int64_t)r)});
    }

  // B. Loops: two-operation bodies over induction variable, carried values and captured values.
  struct B { int lo, hi, st; };
  std::vector<B> bounds = {{0, 3, 1}, {1, 4, 2}, {0, 0, 1}};
  if (T) bounds.insert(bounds.end(), {{2, 3, 5}, {0, 5, 1}, {3, 1, 1}, {0, 4, 3}});
  for (auto& bd : bounds)
    for (int nested = 0; nested < 3; nested++) {
      if (nested && bd.lo != 0) continue;
      // The body is described by op indices so that a fresh DAG is built for each program.
      std::vector<std::pair<size_t, size_t>> progs;
      auto bodyPool = [&](const Ptr& iv, const Ptr& v, const Ptr& s, const Ptr& cap) -> Pool {
        return {{iv, 0}, {v, 1}, {s, 0}, {cap, 1}, {C(1), 0}};
      };
      auto build = [&](size_t i1, size_t i2, std::string* name, bool* ok) -> Ptr {
        *ok = false;
        Ptr cap0 = Node::leaf(lv);
        Ptr cap = Node::add(cap0, cap0);  // computed outside, shared with the loop body and after it
        auto body = [&](const Ptr& iv, const Ptr& v, const Ptr& s) -> Ptr {
          Pool p = bodyPool(iv, v, s, cap);
          Item a{nullptr, 0}, b{nullptr, 0};
          std::string na, nb;
          size_t n = 0;
          eachOp(p, true, [&](const Item& x, const std::string& nm) { if (n++ == i1) a = x, na = nm; });
          if (!a.p) return nullptr;
          p.push_back(a);
          n = 0;
          eachOp(p, false, [&](const Item& x, const std::string& nm) { if (n++ == i2) b = x, nb = nm; });
          if (!b.p) return nullptr;
          *name = na + ";" + nb;
          Ptr yv = v, ys = s;
          if (a.kind == 1) yv = a.p; else if (a.kind == 0) ys = a.p;
          if (b.kind == 1) yv = b.p; else if (b.kind == 0) ys = b.p;
          return Node::yield({yv, ys});
        };
        auto vt = typeOf(1);
        std::vector<Ptr> inits = {cap0, C(1)};
        std::vector<DagType> tys = {vt, DagType::index()};
        bool bad = false;
        Ptr loop;
        if (nested == 0) {
          loop = Node::loop(inits, tys, bd.lo, bd.hi, bd.st, [&](Ptr iv, const std::vector<Ptr>& it) {
            Ptr y = body(iv, it[0], it[1]); if (!y) { bad = true; return Node::yield({it[0], it[1]}); } return y; });
        } else {
          // inner loop of two trips; its body sees the outer (1) or inner (2) induction variable
          loop = Node::loop(inits, tys, bd.lo, bd.hi, bd.st, [&](Ptr iv, const std::vector<Ptr>& it) {
            auto inner = Node::loop({it[0], it[1]}, tys, 0, 2, 1, [&](Ptr jv, const std::vector<Ptr>& jt) {
              Ptr y = body(nested == 1 ? iv : jv, jt[0], nested == 1 ? it[1] : jt[1]);
              if (!y) { bad = true; return Node::yield({jt[0], jt[1]}); }
              return y; });
            return Node::yield({Node::resultAt(inner, 0), Node::resultAt(inner, 1)}); });
        }
        if (bad) return nullptr;
        *ok = true;
        // use both results, and the captured value again, after the loop
        return Node::add(Node::leftRotate(Node::resultAt(loop, 0), Node::resultAt(loop, 1)), cap);
      };
      size_t n1 = 0;
      { Pool p = bodyPool(C(0), Node::leaf(lv), C(0), Node::leaf(lv)); eachOp(p, true, [&](const Item&, const std::string&) { n1++; }); }
      for (size_t i1 = 0; i1 < n1; i1++) {
        if (!mc::mine()) continue;
        // number of second operations depends on the first one's kind: stop at the first hole
        for (size_t i2 = 0;; i2++) {
          if (nested && !T && (i1 + i2) % 3) { if (i2 > 400) break; continue; }
          std::string name;
          bool ok;
          Ptr d = build(i1, i2, &name, &ok);
          if (!ok) break;
          judge(cat("loop", nested), cat("loop:", bd.lo, ":", bd.hi, ":", bd.st, ":n", nested, ":", name), {d});
        }
      }
    }
  return mc::finish();
}
