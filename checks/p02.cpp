// P02: rotate-and-reduce, dot product and broadcasted reduction.
#include "kernel_common.h"
using namespace kc;

static std::vector<Poly> gens(int64_t n, int base = 1) {
  std::vector<Poly> v(n);
  for (int64_t i = 0; i < n; i++) v[i] = Poly::var(base + i);
  return v;
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  const char* ops[] = {"arith.addi", "arith.addf", "arith.muli", "arith.mulf"};

  // A. Accumulation over `steps` = 2^k strided elements, every slot count that can hold them.
  for (int64_t steps = 1; steps <= (T ? 64 : 32); steps *= 2)
    for (int64_t period = 1; period <= (T ? 12 : 7); period++) {
      std::vector<int64_t> slotCounts;
      int64_t n0 = steps * period;
      for (int64_t n : {n0, n0 + 1, n0 + period, 2 * n0, 2 * n0 - 1, 3 * n0}) if (n >= n0 && n <= 512) slotCounts.push_back(n);
      for (int64_t n : slotCounts) {
        if (!mc::mine()) continue;
        for (int op = 0; op < 4; op++)
          for (int u = 0; u < 2; u++) {
            std::string id = cat("acc:s", steps, ":p", period, ":n", n, ":", ops[op], u ? ":u" : ":r");
            if (!mc::begin(id)) continue;
            bool add = op < 2;
            auto v = gens(n);
            std::vector<Poly> want(n);
            for (int64_t k = 0; k < n; k++) {
              want[k] = Poly::constant(add ? 0 : 1);
              for (int64_t i = 0; i < steps; i++) {
                const Poly& x = v[(k + i * period) % n];
                want[k] = add ? want[k] + x : want[k] * x;
              }
            }
            mc::doing("building the rotate-and-reduce kernel");
            Run r = run(implementRotateAndReduce<Sym>(symVec(v), std::nullopt, period, steps,
                                                      DagType::intTensor(32, {n}), {}, ops[op], u));
            same(cat("accumulate:", add ? "add" : "mul", u ? ":u" : ":r"), id, r, want);
            mc::outcome(cat(steps, ",", period, ",", n, add));
            mc::sample(cat(id, ": slot0 = ", r.out.empty() ? "?" : r.out[0].str()), 2);
          }
      }
    }

  // B. Dot product of two vectors of 2^k slots: slot 0 (indeed every slot) is the inner product.
  for (int64_t n = 1; n <= (T ? 256 : 128); n *= 2) {
    if (!mc::mine()) continue;
    std::string id = cat("dot:", n);
    if (!mc::begin(id)) continue;
    auto a = gens(n), b = gens(n, 3000);
    Poly sum;
    for (int64_t i = 0; i < n; i++) sum = sum + a[i] * b[i];
    mc::doing("building the dot-product kernel");
    Run r = run(implementDot<Sym>(symVec(a), symVec(b), n, DagType::intTensor(32, {n})));
    same("dot", id, r, std::vector<Poly>(n, sum));
    mc::outcome(id);
  }

  // C. Broadcasted reduction within blocks of steps*period slots.
  for (int64_t logN = 0; logN <= (T ? 7 : 6); logN++)
    for (int64_t logB = 0; logB <= logN; logB++)
      for (int64_t logP = 0; logB + logP <= logN; logP++)
        for (int op = 0; op < 4; op++)
          for (int u = 0; u < 2; u++) {
            if (!mc::mine()) continue;
            int64_t N = 1 << logN, B = 1 << logB, P = 1 << logP, block = B * P;
            if (op >= 2 && B > 16) continue;
            std::string id = cat("bcast:n", N, ":s", B, ":p", P, ":", ops[op], u ? ":u" : ":r");
            if (!mc::begin(id)) continue;
            bool add = op < 2;
            auto v = gens(N);
            std::vector<Poly> want(N), mask(N);
            for (int64_t k = 0; k < N / block; k++)
              for (int64_t o = 0; o < P; o++) {
                Poly acc = Poly::constant(add ? 0 : 1);
                for (int64_t i = 0; i < B; i++) {
                  const Poly& x = v[k * block + i * P + o];
                  acc = add ? acc + x : acc * x;
                }
                for (int64_t i = 0; i < B; i++) want[k * block + i * P + o] = acc;
                mask[k * block + (B - 1) * P + o] = Poly::constant(1);
              }
            std::optional<Ptr> m;
            if (block < N) m = Node::leaf(symVec(mask));
            mc::doing("building the broadcasted-reduce kernel");
            Run r = run(implementBroadcastedReduce<Sym>(Node::leaf(symVec(v)), m, P, B, N,
                                                        DagType::intTensor(32, {N}), ops[op], u));
            same(cat("broadcast:", add ? "add" : "mul", u ? ":u" : ":r", m ? ":masked" : ":natural"), id, r, want);
            mc::outcome(cat("b", N, ",", B, ",", P, add));
          }
  return mc::finish();
}
