// The prime-search functions of OpenFHE that the parameter generators use.  Boring definitions by trial of every
// candidate: the primes congruent to 1 modulo the order, above, below, first of a bit length, last of a bit length.
#pragma once
#include <cstdint>
#include <stdexcept>
#include <vector>
namespace lbcrypto {
struct NativeInteger {
  uint64_t v = 0;
  NativeInteger(uint64_t x = 0) : v(x) {}
  uint64_t ConvertToInt() const { return v; }
  template <typename T> T ConvertToInt() const { return static_cast<T>(v); }
  NativeInteger Mod(const NativeInteger &o) const { return v % o.v; }
  int GetMSB() const { int n = 0; for (uint64_t t = v; t; t >>= 1) ++n; return n; }
};
inline NativeInteger operator+(NativeInteger a, NativeInteger b) { return a.v + b.v; }
inline NativeInteger operator-(NativeInteger a, NativeInteger b) { return a.v < b.v ? 0 : a.v - b.v; }
inline NativeInteger operator*(NativeInteger a, NativeInteger b) { return a.v * b.v; }
inline bool operator==(NativeInteger a, NativeInteger b) { return a.v == b.v; }
inline bool operator!=(NativeInteger a, NativeInteger b) { return a.v != b.v; }
inline bool operator<(NativeInteger a, NativeInteger b) { return a.v < b.v; }
inline bool operator>(NativeInteger a, NativeInteger b) { return a.v > b.v; }
inline bool compatIsPrime(uint64_t n) {
  if (n < 2) return false;
  for (uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37})
    if (n % p == 0) return n == p;
  uint64_t d = n - 1;
  int r = 0;
  while (!(d & 1)) d >>= 1, ++r;
  auto mulm = [&](uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % n); };
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    uint64_t x = 1, b = a, e = d;
    for (; e; e >>= 1, b = mulm(b, b)) if (e & 1) x = mulm(x, b);
    if (x == 1 || x == n - 1) continue;
    bool comp = true;
    for (int i = 1; i < r && comp; ++i) if ((x = mulm(x, x)) == n - 1) comp = false;
    if (comp) return false;
  }
  return true;
}
template <typename I> I NextPrime(const I &q, uint64_t m) {
  for (uint64_t x = q.v + m;; x += m) {
    if (x >= (1ull << 62)) throw std::runtime_error("NextPrime: overflow");
    if (compatIsPrime(x)) return I(x);
  }
}
template <typename I> I PreviousPrime(const I &q, uint64_t m) {
  for (uint64_t x = q.v; x > m;) if (compatIsPrime(x -= m)) return I(x);
  throw std::runtime_error("PreviousPrime: none");
}
template <typename I> I FirstPrime(uint32_t bits, uint64_t m) {
  if (bits > 60) throw std::runtime_error("FirstPrime: too many bits");
  uint64_t lo = 1ull << bits, x = lo - lo % m + 1;
  while (x < lo) x += m;
  while (!compatIsPrime(x)) if ((x += m) >= (lo << 1)) throw std::runtime_error("FirstPrime: none");
  return I(x);
}
template <typename I> I LastPrime(uint32_t bits, uint64_t m) {
  if (bits > 60) throw std::runtime_error("LastPrime: too many bits");
  uint64_t hi = 1ull << bits, x = (hi - 2) / m * m + 1;
  while (!compatIsPrime(x)) {
    if (x <= m) throw std::runtime_error("LastPrime: none");
    x -= m;
  }
  if (!(x >> (bits - 1))) throw std::runtime_error("LastPrime: none");
  return I(x);
}
}  // namespace lbcrypto
using lbcrypto::NativeInteger;
