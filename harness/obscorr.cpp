// C41: corrections of observations.
#include "harness.hpp"
#include "geodesy/geodesy.hpp"
#include "eigen3/Eigen/Eigen"
#include "doris_observation_equations.hpp"
typedef Eigen::Matrix<double, 3, 1> V3;
int main() {
  vf::Driver d;
  std::freopen("/dev/null", "w", stderr);
  d.cmd = [&](vf::Driver::Toks &t) {
    auto D = [&](int i) { return std::atof(t[i].c_str()); };
    if (t[0] == "Iono") { // Iono json unit g k
      const double s = D(2), g = D(3), k = D(4);
      vf::Ev e("Iono");
      e.s += "," + t[1];
      e.i("corr", vf::toi(dso::carrier_iono_correction((543 * g - 107 * k) * s, (107 * g - 543 * k) * s) / s)).out();
    } else if (t[0] == "Any") { // Any json a b
      vf::Ev e("Any");
      e.s += "," + t[1];
      e.i("clean", vf::toi((D(2) + dso::carrier_iono_correction(D(2), D(3))) * 283400e0)).out();
    } else if (t[0] == "Clock") { // Clock json scale(m per unit of p) u v(3) j p(3) n Re
      const double s = D(2), u = D(3), n = D(11), r = s * n, Re = D(12), C = 299792458e0;
      const V3 v(D(4), D(5), D(6)), p(D(8) * s, D(9) * s, D(10) * s);
      const double a = dso::relativistic_clock_correction(p, v, u * r), b = dso::relativistic_clock_correction(p, v, u * r, D(7) * (r / Re) * (r / Re), Re);
      const double f = b * C * 2 * n * n;
      vf::Ev e("Clock");
      e.s += "," + t[1];
      const bool exact = D(10) == 0 || (D(8) == 0 && D(9) == 0) || D(7) == 0;
      e.i("central", vf::toi_scaled(a, 2 * C, 1e-9)).i("flat", exact ? vf::toi_scaled(b, C * 2 * n * n, 1e-9) : std::abs(f) < 2e9 ? std::lround(f) : vf::WEIRD).out();
    }
  };
  return d.run();
}
