// Stand-in for the IAU models: recognisable functions that record what they were given (see ../README.md).
#ifndef VF_SHIM_IAU_HPP
#define VF_SHIM_IAU_HPP
#include <cmath>
#include "eigen3/Eigen/Eigen"
#include "iersc.hpp"
namespace iers2010 {
namespace sofa {
struct VfRecord {
  double xy_at = 0, s_at = 0, era_at = 0, sp_at = 0, s_x = 0, s_y = 0;   // epochs [MJD]; arguments
  double X = 0, Y = 0, S = 0, SP = 0;                                     // values the models return
  double q[3] = {0, 0, 0}, w[3] = {0, 0, 0};                              // arguments of the matrices
};
inline VfRecord &vf_record() { static VfRecord r; return r; }
inline double vf_mjd(double a, double b) { return (a - 2400000.5e0) + b; }
inline void xy06(double a, double b, double &x, double &y) noexcept { auto &r = vf_record(); r.xy_at = vf_mjd(a, b); x = r.X; y = r.Y; }
inline double s06(double a, double b, double x, double y) noexcept { auto &r = vf_record(); r.s_at = vf_mjd(a, b); r.s_x = x; r.s_y = y; return r.S; }
inline double era00(double a, double b) noexcept { return vf_mjd(a, b); }
inline double sp00(double a, double b) noexcept { auto &r = vf_record(); r.sp_at = vf_mjd(a, b); return r.SP; }
inline Eigen::Matrix<double, 3, 3> c2ixys_e(double x, double y, double s) noexcept { Eigen::Matrix<double, 3, 3> m; m.setZero(); m(0, 0) = x; m(1, 1) = y; m(2, 2) = s; return m; }
inline Eigen::Matrix<double, 3, 3> pom00_e(double x, double y, double sp) noexcept { Eigen::Matrix<double, 3, 3> m; m.setZero(); m(0, 0) = x; m(1, 1) = y; m(2, 2) = sp; return m; }
// fundamental arguments (IERS Conventions 2003)
inline double vf_arg(double t, double a, double b, double c, double d, double e) noexcept { return std::fmod(a + t * (b + t * (c + t * (d + t * e))), TURNAS) * DAS2R; }
inline double fal03(double t) noexcept { return vf_arg(t, 485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470); }
inline double falp03(double t) noexcept { return vf_arg(t, 1287104.793048, 129596581.0481, -0.5532, 0.000136, -0.00001149); }
inline double faf03(double t) noexcept { return vf_arg(t, 335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417); }
inline double fad03(double t) noexcept { return vf_arg(t, 1072260.703692, 1602961601.2090, -6.3706, 0.006593, -0.00003169); }
} // namespace sofa
} // namespace iers2010
#endif
