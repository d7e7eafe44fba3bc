// For the demonstrations of planted bugs: run passes on a program and compare what it computes before and after.
#ifndef VERIF_LIB_DEMO_H_
#define VERIF_LIB_DEMO_H_

#include <cstdio>
#include "passmc.h"

namespace demo {
using namespace pm;
// 0: the transformed program means the same on every input; 1: it does not; 3: the demonstration itself is broken.
inline int run(const DialectRegistry& reg, const std::string& prog, const std::vector<Vs>& inputs, const std::function<void(OpPassManager&)>& passes, const Setup& setup = nullptr, const Also& also = nullptr) {
  Driver d(reg);
  auto before = d.parse(prog);
  if (!before) { printf("does not parse: %s\n", d.diag.c_str()); return 3; }
  OwningOpRef<ModuleOp> after(before->clone());
  if (!d.run(*after, passes)) { printf("the passes fail: %s\n", d.diag.c_str()); return 1; }
  if (failed(verify(*after))) { printf("invalid result: %s\n", d.diag.c_str()); return 1; }
  printf("%s\n", text(*after).c_str());
  for (auto& in : inputs) {
    Outcome a = exec(*before, "f", in, setup);
    if (a.kind != Outcome::OK) { printf("original program: %s\n", a.why.c_str()); return 3; }
    auto w = differs(a, exec(*after, "f", in, setup));
    if (!w.empty()) { printf("on %s: %s\n", show(in).c_str(), w.c_str()); return 1; }
  }
  if (also) { auto w = also(*after); if (!w.empty()) { printf("%s\n", w.c_str()); return 1; } }
  return 0;
}
inline V vars(std::vector<int64_t> sh, int base) {
  std::vector<Sc> v;
  int64_t n = 1;
  for (auto s : sh) n *= s;
  for (int k = 0; k < n; k++) v.push_back(Sc::var(base + k));
  return V::tensor(sh, v);
}
}  // namespace demo
#endif
