#ifndef VF_SHIM_IERSC_HPP
#define VF_SHIM_IERSC_HPP
namespace iers2010 {
constexpr double DPI = 3.141592653589793238462643e0, D2PI = 6.283185307179586476925287e0;
constexpr double DAS2R = 4.848136811095359935899141e-6, DR2AS = 206264.8062470963551564734e0, TURNAS = 1296000e0;
constexpr double Re = 6378136.6e0, Rs = 6.96342e8, AU = 149597870700e0, C = 299792458e0, GMe = 3.986004418e14, OmegaEarth = 7.2921151467064e-5;
} // namespace iers2010
#endif
