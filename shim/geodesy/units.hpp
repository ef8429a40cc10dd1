// Minimal stand-in for the geodesy library: units, angles, ellipsoid (see ../README.md).
#ifndef VF_SHIM_GEODESY_HPP
#define VF_SHIM_GEODESY_HPP
#include <cassert>
#include <cmath>
#include "eigen3/Eigen/Eigen"
#include "matvec/matvec.hpp"
namespace dso {
constexpr double DPI = 3.14159265358979323846e0;
constexpr double D2PI = 2e0 * DPI;
template <typename T> constexpr T deg2rad(T d) noexcept { return d * (T)(DPI / 180e0); }
template <typename T> constexpr T rad2deg(T r) noexcept { return r * (T)(180e0 / DPI); }
template <typename T> constexpr T arcsec2rad(T a) noexcept { return a * (T)(DPI / 648000e0); }
enum class AngleUnit { Radians, Degrees };
template <typename T, AngleUnit U> T norm_angle(T a) noexcept {
  const T full = (U == AngleUnit::Radians) ? D2PI : 360e0;
  T r = std::fmod(a, full);
  return r < 0 ? r + full : r;
}
enum class ellipsoid { grs80, wgs84 };
template <ellipsoid E> struct ellipsoid_traits {};
template <> struct ellipsoid_traits<ellipsoid::grs80> { static constexpr double a = 6378137e0, f = 1e0 / 298.257222101e0; };
template <> struct ellipsoid_traits<ellipsoid::wgs84> { static constexpr double a = 6378137e0, f = 1e0 / 298.257223563e0; };
template <ellipsoid E> void vf_car2ell(const double *v, double *lfh) noexcept {
  constexpr double a = ellipsoid_traits<E>::a, f = ellipsoid_traits<E>::f, e2 = f * (2 - f);
  const double p = std::hypot(v[0], v[1]);
  double phi = std::atan2(v[2], p * (1 - e2)), h = 0;
  for (int i = 0; i < 12; i++) {
    const double s = std::sin(phi), N = a / std::sqrt(1 - e2 * s * s);
    h = p * std::cos(phi) + v[2] * s - a * a / N;
    phi = std::atan2(v[2] + e2 * N * s, p);
  }
  lfh[0] = std::atan2(v[1], v[0]); lfh[1] = phi; lfh[2] = h;
}
template <ellipsoid E> Vector3 car2ell(const Vector3 &x) noexcept { Vector3 r; vf_car2ell<E>(x.data, r.data); return r; }
template <ellipsoid E> Eigen::Matrix<double, 3, 1> car2ell(const Eigen::Matrix<double, 3, 1> &x) noexcept { Eigen::Matrix<double, 3, 1> r; vf_car2ell<E>(x.data(), r.data()); return r; }
} // namespace dso
#endif
