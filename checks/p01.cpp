// P01: the linear-transform kernels compute the matrix-vector product on every slot,
// for every shape, slot count, pattern of zero diagonals, rolled and unrolled.
#include "kernel_common.h"
using namespace kc;

static int64_t p2(int64_t n) { int64_t r = 1; while (r < n) r *= 2; return r; }

// Diagonal packing of a rows x cols matrix, zero padded to powers of two, into `slots` slots.
struct Packed { std::vector<std::vector<Poly>> diag; std::vector<Poly> vec, want; };

static Packed pack(int64_t rows, int64_t cols, int64_t slots, const std::vector<bool>& zeroDiag) {
  int64_t R = p2(rows), C = p2(cols), D = std::min(R, C);
  auto var = [&](int64_t i, int64_t j) { return Poly::var((int)(1 + i * cols + j)); };
  auto vv = [&](int64_t j) { return Poly::var((int)(5000 + j)); };
  Packed p;
  p.diag.assign(D, std::vector<Poly>(slots));
  p.vec.resize(slots);
  p.want.resize(slots);
  for (int64_t s = 0; s < slots; s++) {
    int64_t c = s % C;
    if (c < cols) p.vec[s] = vv(c);
  }
  for (int64_t d = 0; d < D; d++)
    for (int64_t s = 0; s < slots; s++) {
      int64_t r = s % R, c = (s + d) % C;
      if (r < rows && c < cols && !zeroDiag[d]) {
        p.diag[d][s] = var(r, c);
      }
    }
  for (int64_t s = 0; s < slots; s++) {
    int64_t r = s % R;
    // row r of the matrix that survives the zeroed diagonals, times v
    for (int64_t c = 0; c < cols && r < rows; c++) {
      // the diagonal holding entry (r,c): the d with (s' + d) = c mod C for a slot s' = r mod R
      int64_t d = ((c - r) % D + D) % D;
      if (!zeroDiag[d]) p.want[s] = p.want[s] + var(r, c) * vv(c);
    }
  }
  return p;
}

static void hs(int64_t rows, int64_t cols, int64_t slots, uint64_t zmask, int zeroEntriesMode, bool unroll) {
  int64_t R = p2(rows), C = p2(cols), D = std::min(R, C);
  std::string id = cat("hs:", rows, "x", cols, ":slots", slots, ":z", zmask, ":m", zeroEntriesMode, unroll ? ":u" : ":r");
  if (!mc::begin(id)) return;
  std::vector<bool> z(D);
  std::map<int, bool> zd;
  for (int64_t d = 0; d < D; d++) {
    z[d] = zmask >> d & 1;
    // mode 0: every zero diagonal is declared; 1: only the even ones (declaring fewer is allowed)
    if (z[d] && (zeroEntriesMode == 0 || d % 2 == 0)) zd[(int)d] = true;
  }
  Packed p = pack(rows, cols, slots, z);
  mc::doing("building or evaluating the matrix-vector kernel");
  Sym vec = symVec(p.vec), mat = symMat(p.diag);
  auto dag = implementHaleviShoup<Sym>(vec, mat, {rows, cols}, DagType::intTensor(32, {slots}), zd, unroll);
  Run r = run(dag);
  // Slots beyond the padded rows repeat the result when the reduction leaves them valid; the
  // contract read by the rest of the compiler is the first R slots, and, for every shape, their
  // cyclic repetition.
  if (same(cat("matvec:", unroll ? "unrolled" : "rolled", R == C ? ":square" : ":squat", zd.empty() ? "" : ":zerodiag"),
           id, r, p.want, R)) {
    bool rep = true;
    for (int64_t s = 0; s < slots; s++) rep &= r.out[s] == p.want[s];
    if (!rep) mc::violate(cat("matvec-replication:", unroll ? "u" : "r"), id + ": the product is not repeated through the remaining slots");
  }
  mc::outcome(cat(rows, ",", cols, ",", slots, ",", r.out.empty() ? "" : r.out[0].str()));
  mc::sample(cat(id, ": slot0 = ", r.out.empty() ? "?" : r.out[0].str()), 3);
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();

  // A. Plain diagonal matvec: `rows` packed diagonals of an n-slot vector.
  for (int64_t n = 1; n <= (T ? 40 : 20); n++)
    for (int64_t rows = 1; rows <= n; rows++) {
      if (!mc::mine()) continue;
      std::string id = cat("diag:", rows, "x", n);
      if (!mc::begin(id)) continue;
      std::vector<std::vector<Poly>> m(rows, std::vector<Poly>(n));
      std::vector<Poly> v(n), want(n);
      for (int64_t j = 0; j < n; j++) v[j] = Poly::var(5000 + j);
      for (int64_t i = 0; i < rows; i++)
        for (int64_t j = 0; j < n; j++) m[i][j] = Poly::var(1 + i * n + j);
      for (int64_t k = 0; k < n; k++)
        for (int64_t i = 0; i < rows; i++) want[k] = want[k] + m[i][k] * v[(k + i) % n];
      mc::doing("building the diagonal matvec kernel");
      Run r = run(implementMatvec<Sym>(KernelName::MatvecDiagonal, symMat(m), symVec(v)));
      same("diagonal", id, r, want);
      mc::outcome(cat("d", rows, ",", n));
    }

  // B. Halevi-Shoup with squat packing: all logical shapes, slot counts, rolled/unrolled.
  int64_t dim = T ? 24 : 12;
  for (int64_t rows = 1; rows <= dim; rows++)
    for (int64_t cols = 1; cols <= dim; cols++) {
      int64_t R = p2(rows), C = p2(cols);
      if (R > C) continue;  // packing pads columns up to at least the rows
      for (int64_t slots = C; slots <= (T ? 4 : 2) * C && slots <= 64; slots *= 2)
        for (int u = 0; u < 2; u++) {
          if (!mc::mine()) continue;
          hs(rows, cols, slots, 0, 0, u);
        }
    }

  // C. Zero diagonals: every subset, for the smaller shapes.
  for (int64_t R : {1, 2, 4, 8})
    for (int64_t C : {1, 2, 4, 8, 16}) {
      if (R > C || (R == 8 && C == 16 && !T)) continue;
      for (uint64_t z = 0; z < (1ull << R); z++) {
        if (!mc::mine()) continue;
        for (int mode = 0; mode < 2; mode++)
          for (int u = 0; u < 2; u++) hs(R, C, C, z, mode, u);
      }
    }
  // every pair of diagonals for 16 x 16
  for (int a = 0; a < 16; a++)
    for (int b = a; b < 16; b++) {
      if (!mc::mine()) continue;
      for (int u = 0; u < 2; u++) {
        hs(16, 16, 16, (1ull << a) | (1ull << b), 0, u);                      // these are zero
        hs(16, 16, 16, 0xffff & ~((1ull << a) | (1ull << b)), 0, u);          // all others are
      }
    }

  // D. Baby-step giant-step over arbitrary step counts and periods (not only powers of two).
  for (int64_t period = 1; period <= 3; period++)
    for (int64_t steps = 1; steps <= (T ? 40 : 26); steps++)
      for (int u = 0; u < 2; u++) {
        if (!mc::mine()) continue;
        int64_t n = period * steps;
        for (int64_t slots : {n, n + 1, 2 * n}) {
          std::string id = cat("bsgs:p", period, ":s", steps, ":n", slots, u ? ":u" : ":r");
          if (!mc::begin(id)) continue;
          std::vector<std::vector<Poly>> pt(steps, std::vector<Poly>(slots));
          std::vector<Poly> v(slots), want(slots);
          for (int64_t j = 0; j < slots; j++) v[j] = Poly::var(20000 + j);
          for (int64_t i = 0; i < steps; i++)
            for (int64_t j = 0; j < slots; j++) pt[i][j] = Poly::var(1 + i * slots + j);
          // sum_i pt_i * rot(v, period*i)
          for (int64_t k = 0; k < slots; k++)
            for (int64_t i = 0; i < steps; i++) want[k] = want[k] + pt[i][k] * v[(k + period * i) % slots];
          mc::doing("building the baby-step giant-step kernel");
          Run r = run(implementRotateAndReduce<Sym>(symVec(v), std::optional<Sym>(symMat(pt)), period, steps,
                                                    DagType::intTensor(32, {slots}), {}, "arith.addi", u));
          same(cat("bsgs:", u ? "u" : "r"), id, r, want);
          mc::outcome(id);
        }
      }
  mc::count("tier_thorough", T);
  return mc::finish();
}
