// Shared by the kernel harnesses: symbolic leaves and comparison helpers.
#ifndef VERIF_LIB_KERNEL_COMMON_H_
#define VERIF_LIB_KERNEL_COMMON_H_
#include <optional>

#include "dageval.h"
#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/KernelImplementation.h"
#include "mc.h"

namespace kc {
using namespace mlir::heir;
using namespace mlir::heir::kernel;
using dageval::EvalError;
using dageval::Poly;
using PVal = dageval::Val<Poly>;
using mc::cat;

// A leaf of a kernel: a shape, plus the symbolic contents of its slots.
class Sym : public AbstractValue {
 public:
  Sym(std::vector<int64_t> shape, std::vector<Poly> data)
      : val(std::make_shared<PVal>(PVal{std::move(shape), std::move(data)})) {}
  std::vector<int64_t> getShape() const override { return val->shape; }
  const PVal& get() const { return *val; }

 private:
  std::shared_ptr<PVal> val;
};
using Node = ArithmeticDagNode<Sym>;
using Ptr = std::shared_ptr<Node>;

inline Sym symVec(const std::vector<Poly>& d) { return Sym({(int64_t)d.size()}, d); }
inline Sym symMat(const std::vector<std::vector<Poly>>& d) {
  std::vector<Poly> flat;
  for (auto& r : d) flat.insert(flat.end(), r.begin(), r.end());
  return Sym({(int64_t)d.size(), d.empty() ? 0 : (int64_t)d[0].size()}, flat);
}

struct Run {
  bool ok = false;
  std::string error;
  std::vector<Poly> out;
  std::vector<int64_t> rotations;  // amounts, as computed, in order of evaluation
  uint64_t steps = 0;
};

inline Run run(const Ptr& dag) {
  Run r;
  dageval::Eval<Sym, Poly> ev;
  ev.leaf = [](const Sym& s) { return s.get(); };
  ev.onRotate = [&](const void*, int64_t n, int64_t a) { r.rotations.push_back(((a % n) + n) % n); };
  try {
    auto res = ev.run(dag);
    if (res.size() != 1) throw EvalError("kernel yields " + std::to_string(res.size()) + " values");
    r.out = res[0].data;
    r.ok = true;
  } catch (EvalError& e) {
    r.error = e.what();
  }
  r.steps = ev.steps;
  mc::step(ev.steps);
  return r;
}

// First `n` slots (or all when n < 0) agree.
inline bool same(const std::string& key, const std::string& desc, const Run& r, const std::vector<Poly>& want, int64_t n = -1) {
  mc::eval();
  if (!r.ok) { mc::violate(key, desc + ": " + r.error); return false; }
  int64_t m = n < 0 ? want.size() : n;
  if ((int64_t)r.out.size() < m || (n < 0 && r.out.size() != want.size())) {
    mc::violate(key, cat(desc, ": result has ", r.out.size(), " slots, expected ", want.size()));
    return false;
  }
  for (int64_t i = 0; i < m; i++)
    if (!(r.out[i] == want[i])) {
      mc::violate(key, cat(desc, ": slot ", i, " is ", r.out[i].str().substr(0, 300), " expected ", want[i].str().substr(0, 300)));
      return false;
    }
  for (auto& p : want) mc::visit(p.str());
  mc::trace();
  return true;
}
}  // namespace kc
#endif
