// Stand-in for dj_fft.h (not present offline): a plain radix-2 transform with dj_fft's 1/sqrt(N) normalisation.
#pragma once
#include <cmath>
#include <complex>
#include <vector>
namespace dj {
enum class fft_dir { DIR_FWD = +1, DIR_BWD = -1 };
template <typename T> using fft_arg = std::vector<std::complex<T>>;
template <typename T> inline fft_arg<T> fft1d(const fft_arg<T> &xi, const fft_dir &dir) {
  size_t n = xi.size();
  fft_arg<T> a(xi);
  for (size_t i = 1, j = 0; i < n; i++) {
    size_t bit = n >> 1;
    for (; j & bit; bit >>= 1) j ^= bit;
    j ^= bit;
    if (i < j) std::swap(a[i], a[j]);
  }
  for (size_t len = 2; len <= n; len <<= 1) {
    T ang = (dir == fft_dir::DIR_FWD ? -1 : 1) * 2 * T(3.14159265358979323846) / T(len);
    for (size_t i = 0; i < n; i += len)
      for (size_t k = 0; k < len / 2; k++) {
        std::complex<T> w(std::cos(ang * T(k)), std::sin(ang * T(k)));
        auto u = a[i + k], v = a[i + k + len / 2] * w;
        a[i + k] = u + v;
        a[i + k + len / 2] = u - v;
      }
  }
  T g = T(1) / std::sqrt(T(n));
  for (auto &x : a) x *= g;
  return a;
}
} // namespace dj
