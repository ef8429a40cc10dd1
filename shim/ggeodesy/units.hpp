// Minimal stand-in for the older geodesy library the prototypes in var/ use (see ../README.md).
#ifndef VF_SHIM_GGEODESY_HPP
#define VF_SHIM_GGEODESY_HPP
#include <cassert>
#include <cmath>
namespace ngpt {
constexpr double DPI = 3.14159265358979323846e0;
constexpr double D2PI = 2e0 * DPI;
template <typename T> constexpr T deg2rad(T d) noexcept { return d * (T)(DPI / 180e0); }
template <typename T> constexpr T rad2deg(T r) noexcept { return r * (T)(180e0 / DPI); }
} // namespace ngpt
#endif
