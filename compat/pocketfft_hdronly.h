// A textbook discrete Fourier transform behind pocketfft's one-dimensional complex interface.
#pragma once
#include <cmath>
#include <complex>
#include <cstddef>
#include <vector>
namespace pocketfft {
using shape_t = std::vector<size_t>;
using stride_t = std::vector<ptrdiff_t>;
constexpr bool FORWARD = true, BACKWARD = false;
template <typename T>
void c2c(const shape_t &s, const stride_t &, const stride_t &, const shape_t &, bool fwd, const std::complex<T> *in, std::complex<T> *out, T f, size_t = 1) {
  size_t n = s[0];
  for (size_t k = 0; k < n; ++k) {
    std::complex<long double> a = 0;
    for (size_t j = 0; j < n; ++j) {
      long double t = (fwd ? -2 : 2) * 3.14159265358979323846264338327950288L * (long double)((j * k) % n) / n;
      a += std::complex<long double>(in[j].real(), in[j].imag()) * std::complex<long double>(std::cos(t), std::sin(t));
    }
    out[k] = std::complex<T>((T)(a.real() * f), (T)(a.imag() * f));
  }
}
}  // namespace pocketfft
