// Stand-in for the IERS library. The tidal models are replaced by recognisable functions of their own, linear in the epoch, so that it can
// be seen which of them reached which parameter and for which epoch; interpolation is the genuine Lagrange formula over order+1 points.
#ifndef VF_SHIM_IERS2010_HPP
#define VF_SHIM_IERS2010_HPP
#include "iersc.hpp"
#include <cmath>
#include <cstdio>
#include <cassert>
namespace iers2010 {
// half days since J2000 of an epoch given in Julian centuries
inline double vf_half(double jc) { return jc * 36525e0 * 2e0; }
inline int rg_zont2(double jc, double &dut, double &dlod, double &domega) noexcept {
  const double h = vf_half(jc);
  dut = h + 1e5; dlod = 2 * h + 2e5; domega = 3 * h + 3e5;
  return 0;
}
namespace interp {
inline int pmut1_oceans(double jc, double &cx, double &cy, double &cdut, double &clod) noexcept {
  const double h = vf_half(jc);
  cx = 4 * h + 4e5; cy = 5 * h + 5e5; cdut = 6 * h + 6e5; clod = 7 * h + 7e5;
  return 0;
}
inline int pm_gravi(double jc, double &cx, double &cy) noexcept {
  const double h = vf_half(jc);
  cx = 8 * h + 8e5; cy = 9 * h + 9e5;
  return 0;
}
// index: last found bracket (in/out, negative: search); 0 on success
inline int lagint(const double *x, const double *y, int n, double xint, double &yout, int &index, int order = 3) noexcept {
  const int w = (order + 1) / 2;
  if (index < 0 || index >= n - 1 || !(x[index] <= xint && xint < x[index + 1])) {
    index = -1;
    for (int i = 0; i + 1 < n; i++)
      if (x[i] <= xint && xint < x[i + 1]) { index = i; break; }
    if (index < 0) return 1;
  }
  const int a = index - (w - 1), b = index + w;
  if (a < 0 || b >= n) return 1;
  double s = 0;
  for (int i = a; i <= b; i++) {
    double p = y[i];
    for (int j = a; j <= b; j++)
      if (j != i) p *= (xint - x[j]) / (x[i] - x[j]);
    s += p;
  }
  yout = s;
  return 0;
}
} // namespace interp
} // namespace iers2010
#endif
