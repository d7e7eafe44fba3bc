// Reference evaluator for HEIR arithmetic DAGs, independent of the repository's
// own visitors.  Slots hold elements of a chosen ring E; with E = Poly (the free
// commutative ring over the input slots) one evaluation covers every input value.
#ifndef VERIF_LIB_DAGEVAL_H_
#define VERIF_LIB_DAGEVAL_H_

#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

#include "lib/Kernel/ArithmeticDag.h"

namespace dageval {

struct EvalError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// Polynomials with integer coefficients over numbered generators.
struct Poly {
  using Mono = std::u16string;  // sorted generator numbers
  std::map<Mono, int64_t> t;
  static Poly constant(double d) {
    Poly p;
    int64_t c = (int64_t)d;
    if ((double)c != d) throw EvalError("non-integer constant in an integer kernel");
    if (c) p.t[Mono()] = c;
    return p;
  }
  static Poly var(int i) { Poly p; p.t[Mono(1, (char16_t)(i + 1))] = 1; return p; }
  bool isZero() const { return t.empty(); }
  Poly& addScaled(const Poly& o, int64_t k) {
    for (auto& [m, c] : o.t) {
      auto it = t.emplace(m, 0).first;
      it->second += k * c;
      if (!it->second) t.erase(it);
    }
    return *this;
  }
  friend Poly operator+(Poly a, const Poly& b) { return a.addScaled(b, 1), a; }
  friend Poly operator-(Poly a, const Poly& b) { return a.addScaled(b, -1), a; }
  friend Poly operator*(const Poly& a, const Poly& b) {
    Poly r;
    for (auto& [m, c] : a.t)
      for (auto& [n, d] : b.t) {
        Mono k(m.size() + n.size(), 0);
        std::merge(m.begin(), m.end(), n.begin(), n.end(), k.begin());
        auto it = r.t.emplace(k, 0).first;
        it->second += c * d;
        if (!it->second) r.t.erase(it);
      }
    return r;
  }
  bool operator==(const Poly& o) const { return t == o.t; }
  bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
  int64_t toInt() const {
    if (!isConst()) throw EvalError("rotation amount or index depends on data");
    return t.empty() ? 0 : t.begin()->second;
  }
  static Poly floorDiv(const Poly& a, int d) {
    int64_t x = a.toInt();
    int64_t q = x / d;
    if (x % d != 0 && ((x < 0) != (d < 0))) q--;
    return constant((double)q);
  }
  std::string str() const {
    std::string s;
    for (auto& [m, c] : t) {
      s += (s.empty() ? "" : "+") + std::to_string(c);
      for (auto v : m) s += "*x" + std::to_string((int)v - 1);
    }
    return s.empty() ? "0" : s;
  }
};

// Plain doubles / integers.
struct Num {
  double v = 0;
  static Num constant(double d) { return {d}; }
  friend Num operator+(Num a, Num b) { return {a.v + b.v}; }
  friend Num operator-(Num a, Num b) { return {a.v - b.v}; }
  friend Num operator*(Num a, Num b) { return {a.v * b.v}; }
  bool operator==(const Num& o) const { return v == o.v; }
  int64_t toInt() const { return (int64_t)v; }
  static Num floorDiv(Num a, int d) {
    if (a.v < 0) throw EvalError("division of a negative index");
    return {std::floor(a.v / d)};
  }
  std::string str() const { return std::to_string(v); }
};

template <class E>
struct Val {
  std::vector<int64_t> shape;
  std::vector<E> data;
  static Val scalar(E e) { return {{}, {e}}; }
  static Val vec(std::vector<E> d) { int64_t n = d.size(); return {{n}, std::move(d)}; }
  bool operator==(const Val& o) const { return shape == o.shape && data == o.data; }
};

template <class T, class E>
class Eval {
 public:
  using Node = mlir::heir::kernel::ArithmeticDagNode<T>;
  using Ptr = std::shared_ptr<Node>;
  using V = Val<E>;
  using Vs = std::vector<V>;

  std::function<V(const T&)> leaf;
  // (slot count, amount as computed) of every rotation performed
  std::function<void(const void* node, int64_t n, int64_t amount)> onRotate;
  uint64_t steps = 0;

  Vs run(const Ptr& root) {
    layers.clear();
    layers.emplace_back();
    env.clear();
    return process(root);
  }

 private:
  std::vector<std::unordered_map<const Node*, Vs>> layers;
  std::unordered_map<const Node*, V> env;
  std::unordered_map<const Node*, bool> varMemo;

  static std::vector<Ptr> children(const Node& n) {
    using namespace mlir::heir::kernel;
    std::vector<Ptr> c;
    std::visit([&](auto&& x) {
      using N = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<N, AddNode<T>> || std::is_same_v<N, SubtractNode<T>> ||
                    std::is_same_v<N, MultiplyNode<T>> || std::is_same_v<N, ComparisonNode<T>>) c = {x.left, x.right};
      else if constexpr (std::is_same_v<N, FloorDivNode<T>>) c = {x.left};
      else if constexpr (std::is_same_v<N, PowerNode<T>>) c = {x.base};
      else if constexpr (std::is_same_v<N, LeftRotateNode<T>>) c = {x.operand, x.shift};
      else if constexpr (std::is_same_v<N, LeftRotateBulkNode<T>>) { c = x.shifts; c.push_back(x.operand); }
      else if constexpr (std::is_same_v<N, ExtractNode<T>>) c = {x.operand, x.index};
      else if constexpr (std::is_same_v<N, InsertNode<T>>) c = {x.scalar, x.dest, x.index};
      else if constexpr (std::is_same_v<N, IfElseNode<T>>) c = {x.condition, x.thenBody, x.elseBody};
      else if constexpr (std::is_same_v<N, YieldNode<T>>) c = x.elements;
      else if constexpr (std::is_same_v<N, ResultAtNode<T>>) c = {x.operand};
      else if constexpr (std::is_same_v<N, ForLoopNode<T>>) { c = x.inits; c.push_back(x.body); }
    }, n.node_variant);
    return c;
  }

  bool hasVar(const Node* n) {
    auto it = varMemo.find(n);
    if (it != varMemo.end()) return it->second;
    bool r = std::holds_alternative<mlir::heir::kernel::VariableNode<T>>(n->node_variant);
    if (!r) for (auto& c : children(*n)) if (c && hasVar(c.get())) r = true;
    return varMemo[n] = r;
  }

  V one(const Ptr& p) {
    Vs r = process(p);
    if (r.empty()) throw EvalError("node without a result used as a value");
    return r[0];
  }

  Vs process(const Ptr& p) {
    if (!p) throw EvalError("null node");
    auto& layer = hasVar(p.get()) ? layers.back() : layers.front();
    auto it = layer.find(p.get());
    if (it != layer.end()) return it->second;
    size_t depth = layers.size();
    Vs r = visit(p.get());
    steps++;
    (hasVar(p.get()) ? layers[depth - 1] : layers.front())[p.get()] = r;
    return r;
  }

  static int64_t total(const std::vector<int64_t>& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }

  template <class F>
  static V zip(const V& a, const V& b, F f) {
    if (a.shape != b.shape) throw EvalError("operands of an elementwise operation disagree in shape");
    V r{a.shape, {}};
    r.data.reserve(a.data.size());
    for (size_t i = 0; i < a.data.size(); i++) r.data.push_back(f(a.data[i], b.data[i]));
    return r;
  }

  V rotate(const Node* n, const V& v, int64_t amount) {
    if (v.shape.empty()) throw EvalError("rotation of a scalar");
    int64_t m = v.shape.back();
    if (onRotate) onRotate(n, m, amount);
    int64_t a = ((amount % m) + m) % m;
    V r = v;
    for (int64_t row = 0; row < total(v.shape) / m; row++)
      for (int64_t i = 0; i < m; i++) r.data[row * m + i] = v.data[row * m + (i + a) % m];
    return r;
  }

  Vs visit(const Node* n) {
    using namespace mlir::heir::kernel;
    return std::visit([&](auto&& x) -> Vs {
      using N = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<N, ConstantScalarNode> || std::is_same_v<N, SplatNode>) {
        auto shape = x.type.getShape();
        V v{shape, std::vector<E>(total(shape), E::constant(x.value))};
        return {v};
      } else if constexpr (std::is_same_v<N, ConstantTensorNode>) {
        V v{{(int64_t)x.value.size()}, {}};
        for (double d : x.value) v.data.push_back(E::constant(d));
        return {v};
      } else if constexpr (std::is_same_v<N, EmptyNode>) {
        return {V{x.shape, std::vector<E>(total(x.shape), E::constant(0))}};
      } else if constexpr (std::is_same_v<N, LeafNode<T>>) {
        return {leaf(x.value)};
      } else if constexpr (std::is_same_v<N, AddNode<T>>) {
        return {zip(one(x.left), one(x.right), [](const E& a, const E& b) { return a + b; })};
      } else if constexpr (std::is_same_v<N, SubtractNode<T>>) {
        return {zip(one(x.left), one(x.right), [](const E& a, const E& b) { return a - b; })};
      } else if constexpr (std::is_same_v<N, MultiplyNode<T>>) {
        return {zip(one(x.left), one(x.right), [](const E& a, const E& b) { return a * b; })};
      } else if constexpr (std::is_same_v<N, FloorDivNode<T>>) {
        V a = one(x.left);
        for (auto& e : a.data) e = E::floorDiv(e, x.divisor);
        return {a};
      } else if constexpr (std::is_same_v<N, PowerNode<T>>) {
        V a = one(x.base), r = a;
        for (auto& e : r.data) e = E::constant(1);
        for (size_t i = 0; i < x.exponent; i++) r = zip(r, a, [](const E& p, const E& q) { return p * q; });
        return {r};
      } else if constexpr (std::is_same_v<N, LeftRotateNode<T>>) {
        V a = one(x.operand);
        return {rotate(n, a, one(x.shift).data.at(0).toInt())};
      } else if constexpr (std::is_same_v<N, LeftRotateBulkNode<T>>) {
        V a = one(x.operand);
        Vs r;
        for (auto& s : x.shifts) r.push_back(rotate(n, a, one(s).data.at(0).toInt()));
        return r;
      } else if constexpr (std::is_same_v<N, ExtractNode<T>>) {
        V a = one(x.operand);
        int64_t i = one(x.index).data.at(0).toInt();
        if (a.shape.empty() || i < 0 || i >= a.shape[0]) throw EvalError("extract index " + std::to_string(i) + " out of bounds");
        std::vector<int64_t> sub(a.shape.begin() + 1, a.shape.end());
        int64_t m = total(sub);
        return {V{sub, std::vector<E>(a.data.begin() + i * m, a.data.begin() + (i + 1) * m)}};
      } else if constexpr (std::is_same_v<N, InsertNode<T>>) {
        V s = one(x.scalar), d = one(x.dest);
        int64_t i = one(x.index).data.at(0).toInt();
        if (d.shape.empty() || i < 0 || i >= d.shape[0]) throw EvalError("insert index " + std::to_string(i) + " out of bounds");
        std::vector<int64_t> sub(d.shape.begin() + 1, d.shape.end());
        if (sub != s.shape) throw EvalError("inserted value disagrees in shape");
        std::copy(s.data.begin(), s.data.end(), d.data.begin() + i * total(sub));
        return {d};
      } else if constexpr (std::is_same_v<N, ComparisonNode<T>>) {
        int64_t a = one(x.left).data.at(0).toInt(), b = one(x.right).data.at(0).toInt();
        bool r = x.predicate == ComparisonPredicate::LT ? a < b : x.predicate == ComparisonPredicate::LE ? a <= b
               : x.predicate == ComparisonPredicate::GT ? a > b : x.predicate == ComparisonPredicate::GE ? a >= b
               : x.predicate == ComparisonPredicate::EQ ? a == b : a != b;
        return {V::scalar(E::constant(r))};
      } else if constexpr (std::is_same_v<N, IfElseNode<T>>) {
        return process(one(x.condition).data.at(0).toInt() ? x.thenBody : x.elseBody);
      } else if constexpr (std::is_same_v<N, VariableNode<T>>) {
        auto it = env.find(n);
        if (it != env.end()) return {it->second};
        if (x.value) return {leaf(*x.value)};
        throw EvalError("unbound variable");
      } else if constexpr (std::is_same_v<N, YieldNode<T>>) {
        Vs r;
        for (auto& e : x.elements) r.push_back(one(e));
        return r;
      } else if constexpr (std::is_same_v<N, ResultAtNode<T>>) {
        Vs r = process(x.operand);
        if (x.index >= r.size()) throw EvalError("result index out of range");
        return {r[x.index]};
      } else if constexpr (std::is_same_v<N, ForLoopNode<T>>) {
        Vs cur;
        for (auto& i : x.inits) cur.push_back(one(i));
        auto saved = env;
        for (int64_t iv = x.lower; iv < x.upper; iv += x.step) {
          layers.emplace_back();
          env[x.inductionVar.get()] = V::scalar(E::constant((double)iv));
          for (size_t k = 0; k < x.iterArgs.size(); k++) env[x.iterArgs[k].get()] = cur[k];
          Vs next = process(x.body);
          layers.pop_back();
          if (next.size() != cur.size()) throw EvalError("loop body yields a different number of values");
          cur = next;
        }
        env = saved;
        return cur;
      } else {
        throw EvalError("unknown node");
      }
    }, n->node_variant);
  }
};


}  // namespace dageval
#endif
