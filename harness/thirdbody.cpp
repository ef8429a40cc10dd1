// C40: third-body effects over a stand-in ephemeris; positions of Sun and Moon by their series.
#include "harness.hpp"
#include "orbit_integration.hpp"
#include "planetpos.hpp"
#include <type_traits>
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
static struct { double sun[3], moon[3]; std::string calls; } E;
static long floordiv(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
extern "C" {
void furnsh_c(ConstSpiceChar *) {}
SpiceDouble unitim_c(SpiceDouble t, ConstSpiceChar *a, ConstSpiceChar *b) { return !std::strcmp(a, "JDTDT") && !std::strcmp(b, "ET") ? (t - 2451545e0) * 86400e0 : 1e12; }
void spkezp_c(SpiceInt targ, SpiceDouble et, ConstSpiceChar *ref, ConstSpiceChar *corr, SpiceInt obs, SpiceDouble p[3], SpiceDouble *lt) {
  const bool ok = !std::strcmp(ref, "J2000") && !std::strcmp(corr, "NONE");
  const long ms = std::abs(et) < 1e11 ? std::lround(et * 1e3) : 0, day = floordiv(ms, 86400000);
  E.calls += (E.calls.empty() ? "[" : ",[") + std::to_string(targ) + "," + std::to_string(obs) + "," + std::to_string((int)ok) + "," + std::to_string(day) + "," + std::to_string(ms - day * 86400000) + "]";
  *lt = 1.25;
  for (int i = 0; i < 3; i++) p[i] = !ok || obs != 399 ? 31 + i : targ == 10 ? E.sun[i] : targ == 301 ? E.moon[i] : 17 - i;
}
}
static std::string place(const double *r, double t, bool date, double mean) {
  const double e = dso::deg2rad<double>(23.43929111 - (date ? 0.0130042 * t : 0)), y = std::cos(e) * r[1] + std::sin(e) * r[2], z = std::cos(e) * r[2] - std::sin(e) * r[1], n = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]), as = 648000e0 / dso::DPI;
  if (!(n > 1e3 && n < 1e9)) return "[0,999999,0]";
  return "[" + std::to_string(std::lround(std::atan2(y, r[0]) * as)) + "," + std::to_string(std::lround(std::asin(z / n) * as)) + "," + std::to_string(std::lround(n / mean * 1e6)) + "]";
}
int main() {
  vf::Driver d;
  std::freopen("/dev/null", "w", stderr);
  d.cmd = [&](vf::Driver::Toks &t) {
    auto D = [&](int i) { return std::atof(t[i].c_str()); };
    if (t[0] == "Third") { // Third json day ms r(3) GMs sun(3) GMm moon(3) D2
      V3 sa(5, 5, 5), ma(6, 6, 6), sp(7, 7, 7), r(D(4) * 1e3, D(5) * 1e3, D(6) * 1e3);
      M3 g; g.setConstant(9);
      for (int i = 0; i < 3; i++) { E.sun[i] = D(8 + i); E.moon[i] = D(12 + i); }
      E.calls.clear();
      dso::SunMoon(D(2) + D(3) / 86400e3, r, D(7), D(11), sa, ma, sp, g);
      auto v = [](const V3 &x, double s) { return std::vector<long>{vf::toi_scaled(x(0), s, 1e-9), vf::toi_scaled(x(1), s, 1e-9), vf::toi_scaled(x(2), s, 1e-9)}; };
      std::vector<long> gg;
      for (int i = 0; i < 9; i++) gg.push_back(vf::toi_scaled(g(i / 3, i % 3), D(15), 1e-9));
      vf::Ev e("Third");
      e.s += "," + t[1];
      e.arr("sunacc", v(sa, 1)).arr("moonacc", v(ma, 1)).arr("sunpos", v(sp, 1e-3)).arr("grad", gg).raw("calls", "[" + E.calls + "]").out();
    } else if (t[0] == "Places") { // Places json day ms
      const dso::datetime<dso::nanoseconds> at(dso::modified_julian_day(std::atol(t[2].c_str())), dso::nanoseconds(std::atol(t[3].c_str()) * 1000000L));
      const double days = (D(2) - 51544.5) + D(3) / 86400e3, T = days / 36525e0;
      double a[5][3], b[5][3];
      dso::sun_vector_montenbruck(T, a[0]); dso::sun_vector_vallado(T, a[1]); dso::sun_vector_curtis(days, a[2]); dso::moon_vector_approx(T, a[3]); dso::moon_vector_vallado(T, a[4]);
      dso::sun_vector_montenbruck(at, b[0]); dso::sun_vector_vallado(at, b[1]); dso::sun_vector_curtis(at, b[2]); dso::moon_vector_approx(at, b[3]); dso::moon_vector_vallado(at, b[4]);
      bool same = true;
      for (int i = 0; i < 5; i++) for (int k = 0; k < 3; k++) same &= std::abs(a[i][k] - b[i][k]) <= 1e1;
      vf::Ev e("Places");
      e.s += "," + t[1];
      const double AU = 149597870.7e0, LD = 384400e0;
      e.raw("sm", place(a[0], T, false, AU)).raw("sv", place(a[1], T, true, AU)).raw("sc", place(a[2], T, true, AU)).raw("ma", place(a[3], T, false, LD)).raw("mv", place(a[4], T, true, LD)).i("same", same).out();
    }
  };
  return d.run();
}
