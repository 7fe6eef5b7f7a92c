// Stand-in for Iir.h (not present offline): Butterworth low and high passes as cascades of second-order sections.
#pragma once
#include <cmath>
namespace Iir {
namespace Butterworth {
template <int N, bool High> struct Pass {
  static_assert(N % 2 == 0, "even orders");
  double b0[N / 2], b1[N / 2], b2[N / 2], a1[N / 2], a2[N / 2], z1[N / 2], z2[N / 2];
  void setup(double fs, double f) {
    const double pi = 3.14159265358979323846, k = std::tan(pi * f / fs);
    for (int i = 0; i < N / 2; i++) {
      double q = 1 / (2 * std::sin((2 * i + 1) * pi / (2 * N))), n = 1 / (1 + k / q + k * k);
      b0[i] = High ? n : k * k * n;
      b1[i] = (High ? -2 : 2) * b0[i];
      b2[i] = b0[i];
      a1[i] = 2 * (k * k - 1) * n;
      a2[i] = (1 - k / q + k * k) * n;
    }
    reset();
  }
  void reset() {
    for (int i = 0; i < N / 2; i++) z1[i] = z2[i] = 0;
  }
  double filter(double x) {
    for (int i = 0; i < N / 2; i++) {
      double y = b0[i] * x + z1[i];
      z1[i] = b1[i] * x - a1[i] * y + z2[i];
      z2[i] = b2[i] * x - a2[i] * y;
      x = y;
    }
    return x;
  }
};
template <int N> struct LowPass : Pass<N, false> {};
template <int N> struct HighPass : Pass<N, true> {};
} // namespace Butterworth
} // namespace Iir
