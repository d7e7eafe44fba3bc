// P09: modular arithmetic and number theory on arbitrary-width integers.
#include "lib/Utils/APIntUtils.h"
#include "lib/Utils/MathUtils.h"
#include "mc.h"
#include <cmath>
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/SmallString.h"
using namespace mlir::heir;
using llvm::APFloat;
using llvm::APInt;
using mc::cat;
typedef unsigned __int128 u128;
typedef uint64_t u64;

static u64 mulm(u64 a, u64 b, u64 q) { return (u64)((u128)a * b % q); }
static u64 powm(u64 a, u64 e, u64 q) { u64 r = 1 % q; a %= q; for (; e; e >>= 1) { if (e & 1) r = mulm(r, a, q); a = mulm(a, a, q); } return r; }
static std::string s(const APInt& a) { llvm::SmallString<40> b; a.toStringUnsigned(b); return b.str().str(); }
static int bitsOf(u64 v) { int b = 0; while (v) v >>= 1, b++; return b; }

static void inverse(u64 m, unsigned width, const std::vector<u64>& xs) {
  for (u64 x : xs) {
    if (x >= m) continue;
    mc::doing("computing a modular inverse");
    APInt r = multiplicativeInverse(APInt(width, x), APInt(width, m));
    u64 a = x, b = m; while (b) { u64 t = a % b; a = b; b = t; }
    mc::step();
    bool ok = r.getBitWidth() == width;
    if (a == 1 && m > 1) ok &= r.ult(APInt(width, m)) && mulm(x, r.getZExtValue(), m) == 1;
    else ok &= r.isZero();
    if (!ok) { mc::violate("inverse", cat("inverse of ", x, " modulo ", m, " in ", width, " bits is ", s(r))); return; }
  }
  mc::trace();
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  // A. inverses: every x < m for every small m in every sensible width; boundary moduli of wide types
  for (u64 m = 1; m <= (T ? 2000 : 700); m++) {
    if (!mc::mine() || !mc::begin(cat("inv:", m))) continue;
    std::vector<u64> all(m);
    for (u64 i = 0; i < m; i++) all[i] = i;
    unsigned b = bitsOf(m);
    for (unsigned w : {b, b + 1, 16u, 32u, 64u, 65u, 128u}) if (w >= b) inverse(m, w, all);
    mc::outcome(cat("inv", m)); mc::visit(cat("inv", m));
  }
  for (unsigned w : {8u, 13u, 16u, 31u, 32u, 33u, 62u, 63u, 64u})
    for (int d = 0; d < (T ? 400 : 120); d++) {
      if (!mc::mine() || !mc::begin(cat("invw:", w, ":", d))) continue;
      u64 top = w == 64 ? ~0ull : (1ull << w) - 1, m = top - d;
      if ((u64)d >= top) continue;
      std::vector<u64> xs;
      for (u64 k = 0; k < 60; k++) { xs.push_back(k); xs.push_back(m - 1 - k); xs.push_back(m / 2 + k); xs.push_back(m / 2 - k); xs.push_back(m / (k + 1)); xs.push_back((1ull << (w - 1)) + k); }
      for (unsigned W : {w, w + 1, 2 * w}) inverse(m, W, xs);
      mc::outcome(cat("invw", m)); mc::visit(cat("invw", m));
    }
  // B. products and powers
  for (u64 m = 2; m <= (T ? 100 : 48); m++) {
    if (!mc::mine() || !mc::begin(cat("pow:", m))) continue;
    unsigned b = bitsOf(m);
    for (unsigned w : {b, b + 3, 64u})
      for (u64 x = 0; x < (1ull << b) && x < 200; x++) {
        for (u64 y = 0; y < (1ull << b); y++) {
          mc::doing("multiplying modulo");
          APInt p = modularMultiplication(APInt(w, x), APInt(w, y), APInt(w, m));
          if (p.getBitWidth() != w || p != x * y % m) mc::violate("multiply", cat(x, "*", y, " mod ", m, " = ", s(p)));
          mc::step();
        }
        for (u64 e = 0; e < (1ull << b) && e < 130; e++)
          for (unsigned we : {w, 8u}) {
            if (bitsOf(e) > (int)we) continue;
            mc::doing("exponentiating modulo");
            APInt p = modularExponentiation(APInt(w, x), APInt(we, e), APInt(w, m));
            if (p.getBitWidth() != w || p != powm(x, e, m)) mc::violate("power", cat(x, "^", e, " mod ", m, " in ", w, " bits = ", s(p)));
            mc::step();
          }
      }
    mc::trace(); mc::outcome(cat("pow", m)); mc::visit(cat("pow", m));
  }
  for (unsigned w : {8u, 16u, 31u, 32u, 33u, 63u, 64u}) {
    u64 top = w == 64 ? ~0ull : (1ull << w) - 1;
    for (int d = 0; d < 40; d++) {
      if (!mc::mine() || !mc::begin(cat("poww:", w, ":", d))) continue;
      u64 m = top - d;
      std::vector<u64> v = {0, 1, 2, 3, m - 1, m - 2, m / 2, m / 2 + 1, m / 3, top, 1ull << (w - 1)};
      for (u64 x : v)
        for (u64 y : v) {
          mc::doing("multiplying or exponentiating modulo");
          APInt p = modularMultiplication(APInt(w, x), APInt(w, y), APInt(w, m)), e = modularExponentiation(APInt(w, x), APInt(w, y), APInt(w, m));
          if (p != mulm(x % m, y % m, m)) mc::violate("multiply", cat(x, "*", y, " mod ", m, " = ", s(p)));
          if (e != powm(x, y, m)) mc::violate("power", cat(x, "^", y, " mod ", m, " = ", s(e)));
          mc::step(2);
        }
      mc::trace(); mc::outcome(cat("poww", m)); mc::visit(cat("poww", m));
    }
  }
  // 128-bit moduli: Fermat, and agreement of x^(a+b) with x^a x^b
  for (int d = 0; d < 12; d++) {
    if (!mc::mine() || !mc::begin(cat("pow128:", d))) continue;
    APInt p = APInt::getOneBitSet(160, 127) - 1;  // 2^127 - 1, prime
    APInt x(160, 3 + 7 * d);
    x = x.shl(10 * d);
    if (!modularExponentiation(x, p - 1, p).isOne()) mc::violate("power128", "Fermat's theorem fails modulo 2^127-1");
    APInt inv = multiplicativeInverse(x.urem(p), p);
    if (!modularMultiplication(inv, x, p).isOne()) mc::violate("inverse128", "inverse modulo 2^127-1");
    for (u64 a = 0; a < 30; a++)
      for (u64 b = 0; b < 30; b++) {
        if (modularMultiplication(modularExponentiation(x, APInt(160, a), p), modularExponentiation(x, APInt(160, b), p), p) != modularExponentiation(x, APInt(160, a + b), p)) mc::violate("power128", cat("x^", a, " x^", b));
        mc::step();
      }
    mc::trace();
  }
  // C. primality and factorisation
  const int N = T ? 1 << 20 : 1 << 17;
  std::vector<int> lp(N + 1, 0);
  for (int i = 2; i <= N; i++) if (!lp[i]) for (int j = i; j <= N; j += i) if (!lp[j]) lp[j] = i;
  for (int blk = 0; blk < N; blk += 1024) {
    if (!mc::mine() || !mc::begin(cat("prime:", blk))) continue;
    for (int n = blk; n < blk + 1024; n++) {
      for (unsigned w : {(unsigned)bitsOf(n) + !n, 32u, 64u}) {
        mc::doing("testing primality");
        if (isPrime(APInt(w, n)) != (n >= 2 && lp[n] == n)) mc::violate("prime", cat("isPrime(", n, ") in ", w, " bits"));
        mc::step();
      }
      if (n < 40000 || n % 16 == 1)
        for (unsigned w : {(unsigned)bitsOf(n) + !n, 64u, 128u}) {
          mc::doing("factorising");
          std::vector<u64> want;
          for (int m = n; m >= 2; m /= lp[m]) if (want.empty() || want.back() != (u64)lp[m]) want.push_back(lp[m]);
          auto got = factorize(APInt(w, n));
          std::vector<u64> g;
          for (auto& f : got) g.push_back(f.getZExtValue());
          std::sort(g.begin(), g.end()); std::sort(want.begin(), want.end());
          if (g != want) mc::violate("factor", cat("factorize(", n, ") in ", w, " bits = ", mc::join(g)));
          mc::step();
        }
    }
    mc::trace(); mc::visit(cat("p", blk)); mc::outcome(cat("p", blk));
  }
  if (mc::mine() && mc::begin("prime:known")) {
    mc::doing("testing primality");
    for (u64 n : {2047ull, 3215031751ull, 3825123056546413051ull, 341550071728321ull, 3474749660383ull, 2152302898747ull, 25326001ull, 1373653ull, 561ull, 1105ull, 1729ull, 6601ull, 8911ull,
                  41041ull, 825265ull, 18446744073709551615ull, 4295098369ull, 18446744030759878681ull, 4611686014132420609ull, 9223372036854775807ull, 18446743979220271189ull})
      if (isPrime(APInt(64, n))) mc::violate("prime", cat(n, " is composite"));
    for (u64 n : {18446744073709551557ull, 18446744073709551533ull, 9223372036854775783ull, 2305843009213693951ull, 4294967291ull, 4294967311ull, 2147483647ull, 998244353ull, 1152921504606584833ull})
      if (!isPrime(APInt(64, n))) mc::violate("prime", cat(n, " is prime"));
    for (unsigned e = 2; e <= 130; e++) {
      static const std::set<unsigned> mersenne = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127};
      APInt m = APInt::getOneBitSet(e + 1, e) - 1;
      if (isPrime(m) != (mersenne.count(e) > 0)) mc::violate("prime", cat("2^", e, "-1"));
      if (isPrime(m.zext(200)) != (mersenne.count(e) > 0)) mc::violate("prime", cat("2^", e, "-1 in 200 bits"));
      mc::step();
    }
    // Sorenson-Webster: strong pseudoprime to the first 12 prime bases
    APInt sw(96, "318665857834031151167461", 10);
    if (isPrime(sw)) mc::violate("prime", "318665857834031151167461 is composite");
    mc::trace();
  }
  // products of small primes beyond 64 bits, and squares of primes around 2^16
  for (int a = 0; a <= 40; a += 4)
    for (int b = 0; b <= 30; b += 3)
      for (int c = 0; c <= 1; c++) {
        if (!mc::mine() || !mc::begin(cat("smooth:", a, ":", b, ":", c))) continue;
        APInt n(192, 1);
        for (int i = 0; i < a; i++) n *= 2;
        for (int i = 0; i < b; i++) n *= 3;
        if (c) n *= 65521;
        std::vector<u64> want, g;
        if (a) want.push_back(2); if (b) want.push_back(3); if (c) want.push_back(65521);
        mc::doing("factorising");
        for (auto& f : factorize(n)) g.push_back(f.getZExtValue());
        std::sort(g.begin(), g.end());
        if (g != want) mc::violate("factor-wide", cat("2^", a, " 3^", b, (c ? " 65521" : ""), " = ", mc::join(g)));
        mc::trace();
      }
  for (u64 p : {251ull, 257ull, 65521ull, 65537ull, 16777213ull})
    for (u64 q : {2ull, 3ull, 251ull, 65537ull, 16777213ull}) {
      if (!mc::mine() || !mc::begin(cat("semi:", p, ":", q))) continue;
      mc::doing("factorising");
      std::set<u64> g, want{p, q};
      for (auto& f : factorize(APInt(64, p * q))) g.insert(f.getZExtValue());
      if (g != want) mc::violate("factor", cat(p, "*", q));
      mc::trace();
    }
  if (mc::mine() && mc::begin("factor:largest")) {
    // the largest 64-bit prime: trial division must stop although no 64-bit square exceeds it
    mc::doing("factorising the largest 64-bit prime");
    auto f = factorize(APInt(64, 18446744073709551557ull));
    if (f.size() != 1 || f[0] != 18446744073709551557ull) mc::violate("factor-largest", "factorize(18446744073709551557)");
    mc::trace();
  }
  // D. primitive roots and roots of unity
  for (int q = 2; q < (T ? 6000 : 2000); q++) {
    if (lp[q] != q) continue;
    if (!mc::mine() || !mc::begin(cat("root:", q))) continue;
    mc::doing("finding a primitive root");
    for (unsigned w : {(unsigned)bitsOf(q), 32u, 64u}) {
      auto g = findPrimitiveRoot(APInt(w, q));
      auto order = [&](u64 x) { u64 y = x % q, k = 1; while (y != 1 % q && k <= (u64)q) y = y * x % q, k++; return k; };
      if (!g) { mc::violate("primitive-root", cat("none found modulo ", q)); continue; }
      if (q > 2 && order(g->getZExtValue()) != (u64)q - 1) mc::violate("primitive-root", cat(s(*g), " modulo ", q));
      if (q == 2 && *g != 1) mc::violate("primitive-root", "modulo 2");
      for (u64 n = 1; n <= 2 * (u64)q; n++) {
        if (bitsOf(2 * n) > (int)w) continue;
        auto r = findPrimitive2nthRoot(APInt(w, q), n);
        bool exists = q > 2 && (q - 1) % (2 * n) == 0;
        if ((bool)r != exists) { mc::violate("root-of-unity", cat("q=", q, " n=", n, exists ? ": not found" : ": found although none exists")); break; }
        if (r && order(r->getZExtValue()) != 2 * n) { mc::violate("root-of-unity", cat("q=", q, " n=", n, ": ", s(*r), " has the wrong order")); break; }
        mc::step();
      }
    }
    mc::trace(); mc::visit(cat("r", q)); mc::outcome(cat("r", q));
  }
  for (u64 q : {12289ull, 65537ull, 998244353ull, 4293918721ull, 1152921504606584833ull}) {
    for (u64 n = 1; n <= (1 << 13); n *= 2) {
      if (!mc::mine() || !mc::begin(cat("bigroot:", q, ":", n))) continue;
      if ((q - 1) % (2 * n)) continue;
      mc::doing("finding a root of unity");
      for (unsigned w : {64u, 65u, 128u}) {
        auto r = findPrimitive2nthRoot(APInt(w, q), n);
        if (!r || powm(r->getZExtValue(), n, q) != q - 1) mc::violate("root-of-unity", cat("q=", q, " n=", n));
      }
      mc::trace();
    }
  }
  for (u64 q = 4; q <= 60; q += 2) {
    if (!mc::begin(cat("even:", q))) continue;
    if (findPrimitiveRoot(APInt(64, q))) mc::violate("primitive-root", cat("found modulo the even number ", q));
  }
  // E. powers of two
  for (int k = 0; k < 63; k++)
    for (int d = -3; d <= 3; d++) {
      int64_t v = (1ll << k) + d;
      if (v < 1 || !mc::begin(cat("p2:", v))) continue;
      u64 want = 1; while (want < (u64)v) want *= 2;
      if (nextPowerOfTwo(v) != want) mc::violate("next-power", cat("nextPowerOfTwo(", v, ") = ", nextPowerOfTwo(v)));
      if (isPowerOfTwo(v) != (want == (u64)v) || isPowerOfTwo(-v) || isPowerOfTwo(0)) mc::violate("is-power", cat("isPowerOfTwo near ", v));
      mc::step();
    }
  for (int v = 1; v < 70000; v++) { u64 want = 1; while (want < (u64)v) want *= 2; if (nextPowerOfTwo(v) != want || isPowerOfTwo(v) != (want == (u64)v)) mc::violate("next-power", cat(v)); }
  // F. float conversion: every half, both ways; and every small double pattern to float
  for (int hi = 0; hi < 256; hi++) {
    if (!mc::mine() || !mc::begin(cat("half:", hi))) continue;
    mc::doing("converting floats");
    for (int lo = 0; lo < 256; lo++) {
      APFloat h(APFloat::IEEEhalf(), APInt(16, hi * 256 + lo));
      for (auto* sem : {&APFloat::IEEEsingle(), &APFloat::IEEEdouble()}) {
        APFloat wide = convertFloatToSemantics(h, *sem), back = convertFloatToSemantics(wide, APFloat::IEEEhalf());
        if (&wide.getSemantics() != sem) mc::violate("float", "wrong semantics");
        if (h.isNaN() ? !wide.isNaN() || !back.isNaN() : !back.bitwiseIsEqual(h)) mc::violate("float", cat("half ", hi * 256 + lo, " does not survive the round trip"));
        mc::step();
      }
      for (int e = -160; e <= 140; e += 3) {
        double d = std::ldexp(1.0 + (hi * 256 + lo) / 65536.0 + (lo % 3) * std::ldexp(1.0, -30), e);
        APFloat f = convertFloatToSemantics(APFloat(d), APFloat::IEEEsingle());
        if (f.convertToFloat() != (float)d) mc::violate("float", cat("double ", d, " rounds wrongly"));
        if (!convertFloatToSemantics(APFloat(d), APFloat::IEEEdouble()).bitwiseIsEqual(APFloat(d))) mc::violate("float", "identity conversion changes the value");
      }
    }
    mc::trace(); mc::visit(cat("h", hi));
  }
  // G. inverse error function: inverse, odd, increasing
  for (int blk = 0; blk < 100; blk++) {
    if (!mc::mine() || !mc::begin(cat("erfinv:", blk))) continue;
    double last = -INFINITY;
    for (int i = 0; i < 400; i++) {
      double a = -1 + 2 * (blk * 400 + i + 0.5) / 40000.0, x = erfinv(a);
      if (!(std::fabs(std::erf(x) - a) <= 1e-6) || !(std::fabs(erfinv(-a) + x) <= 1e-12) || !(x > last)) { mc::violate("erfinv", cat("erfinv(", a, ") = ", x)); break; }
      last = x;
      mc::step();
    }
    mc::trace();
  }
  for (int k = 2; k <= 22; k++) {
    double a = 1 - std::ldexp(1.0, -k), x = erfinv(a);
    if (!(std::fabs(std::erfc(x) / std::ldexp(1.0, -k) - 1) <= 1e-3)) mc::violate("erfinv-tail", cat("erfinv(1-2^-", k, ") = ", x));
  }
  return mc::finish();
}
