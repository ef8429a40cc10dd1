// Stand-in for the gcem library: the compiler's own functions, which it evaluates at compile time (see README.md).
#ifndef VF_SHIM_GCEM_HPP
#define VF_SHIM_GCEM_HPP
namespace gcem {
constexpr double asin(double x) noexcept { return __builtin_asin(x); }
constexpr double acos(double x) noexcept { return __builtin_acos(x); }
constexpr double atan(double x) noexcept { return __builtin_atan(x); }
constexpr double sin(double x) noexcept { return __builtin_sin(x); }
constexpr double cos(double x) noexcept { return __builtin_cos(x); }
constexpr double tan(double x) noexcept { return __builtin_tan(x); }
constexpr double sqrt(double x) noexcept { return __builtin_sqrt(x); }
} // namespace gcem
#endif
