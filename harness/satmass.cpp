// C18: corrections in force at an epoch, and the mass / centre of gravity of both satellites.
#include "harness.hpp"
#include "satellites/cryosat2.hpp"
#include "satellites/jason3.hpp"
using namespace dso;
using Sec = nanoseconds;
template <SATELLITE S> static int mc(const datetime<Sec> &t, const char *fn, std::vector<long> &tot, std::vector<long> &ini) {
  double m = -1;
  Eigen::Matrix<double, 3, 1> x;
  const int rc = SatelliteInfo<S>::mass_cog(t, fn, m, x);
  const auto c = SatelliteInfo<S>::initial_center_of_gravity();
  tot = {vf::toi_scaled(m, 1e4), vf::toi_scaled(x(0), 1e4), vf::toi_scaled(x(1), 1e4), vf::toi_scaled(x(2), 1e4)};
  ini = {vf::toi_scaled(SatelliteInfo<S>::InitialMass(), 1e4), vf::toi_scaled(c(0), 1e4), vf::toi_scaled(c(1), 1e4), vf::toi_scaled(c(2), 1e4)};
  return rc;
}
int main() {
  vf::Driver d;
  std::freopen("/dev/null", "w", stderr);
  d.cmd = [](vf::Driver::Toks &t) { // Query file there sat day ms
    const long day = std::atol(t[4].c_str()), ms = std::atol(t[5].c_str());
    datetime<Sec> e(modified_julian_day(day), Sec(ms * 1000000L));
    double v[4] = {7, 7, 7, 7};
    const int rc = get_satellite_corrections(t[1].c_str(), e, v);
    std::vector<long> vv, tot, ini;
    for (double x : v) vv.push_back(rc ? 0 : vf::toi_scaled(x, 1e4));
    const int rc2 = t[3] == "j3" ? mc<SATELLITE::Jason3>(e, t[1].c_str(), tot, ini) : mc<SATELLITE::Cryosat2>(e, t[1].c_str(), tot, ini);
    if (rc2) tot = {0, 0, 0, 0};
    vf::Ev("Query").i("there", std::atol(t[2].c_str())).raw("q", "{\"d\":" + t[4] + ",\"ms\":" + t[5] + "}").i("rc", rc).i("rc2", rc2).i("sat", t[3] == "j3" ? 1 : 2).arr("v", vv).arr("tot", tot).arr("ini", ini).out();
  };
  return d.run();
}
