// C34: celestial and Earth-fixed frames.
#include "harness.hpp"
#include "orbit_integration.hpp"
#include "iers2010/iau.hpp"
using V3 = Eigen::Matrix<double, 3, 1>;
using V6 = Eigen::Matrix<double, 6, 1>;
using M3 = Eigen::Matrix<double, 3, 3>;
static const double PI = 3.14159265358979323846;
static const int ANG[12][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}};
static long rnd(double v) { return std::abs(v) < 2e9 ? std::lround(v) : vf::WEIRD; }
// the Earth orientation parameters of an epoch: known values
static dso::EopRecord g_eop;
static int g_eoprc = 0;
static double g_eopat = 0;
int dso::EopLookUpTable::interpolate(double t, dso::EopRecord &r, int) const noexcept { g_eopat = t; r = g_eop; return g_eoprc; }
// without the corrections for tides: not what is wanted
int dso::EopLookUpTable::interpolate_lagrange(double, dso::EopRecord &r, int) const noexcept { g_eopat = 0; r = dso::EopRecord(); return g_eoprc; }
int main() {
  vf::Driver d;
  M3 q, p; double era = 0, lod = 0; int w = 0; bool cel = true, have = false;
  V6 y;
  const double W0 = iers2010::OmegaEarth / 2; // velocity per unit of length
  auto rot = [](int ax, int k) {
    const double c = ANG[k][0] / 5e0, s = ANG[k][1] / 5e0;
    M3 m = M3::Identity();
    const int i = ax % 3, j = (ax + 1) % 3;
    m(i, i) = c; m(i, j) = s; m(j, i) = -s; m(j, j) = c;
    return m;
  };
  double L = 1; // unit of length
  auto v3 = [&](const V3 &v, double u) { return std::vector<long>{rnd(125e3 * v(0) / u), rnd(125e3 * v(1) / u), rnd(125e3 * v(2) / u)}; };
  d.begin = [&] { have = false; };
  d.cmd = [&](vf::Driver::Toks &t) {
    auto I = [&](size_t k) { return k < t.size() ? std::atoi(t[k].c_str()) : 0; };
    auto D = [&](size_t k) { return k < t.size() ? std::atof(t[k].c_str()) : 0e0; };
    if (t[0] == "New") { // New q qk e p pk w base turns L r1 r2 r3 v1 v2 v3
      q = rot(I(1), I(2)); p = rot(I(4), I(5)); w = I(6); L = D(9);
      era = std::atan2(ANG[I(3)][1], ANG[I(3)][0]) + 2 * PI * I(8);
      lod = 86400e0 * (1 - w / 2e0);   // the rate is w units: w / 2 times the nominal one
      cel = I(7) == 0;
      std::vector<long> r, v;
      for (int i = 0; i < 3; i++) { r.push_back(I(10 + i)); v.push_back(I(13 + i)); y(i) = L * I(10 + i); y(3 + i) = L * W0 * I(13 + i); }
      have = true;
      vf::Ev("Start").i("q", I(1)).i("qk", I(2)).i("e", I(3)).i("p", I(4)).i("pk", I(5)).i("w", w).str("base", cel ? "cel" : "ter").arr("r", r).arr("v", v).out();
      return;
    }
    if (t[0] == "Orient") { // Orient mjd ms dut(ms) lod(us) dx dy xp yp (arcsec) fail X Y S SP (arcsec) base
      auto &rec = iers2010::sofa::vf_record();
      const double as = PI / 648000e0;
      const long base = I(14);
      g_eop = dso::EopRecord(); g_eop.dut = I(3) / 1e3; g_eop.lod = I(4) / 1e6; g_eop.dx = I(5); g_eop.dy = I(6); g_eop.xp = I(7); g_eop.yp = I(8); g_eop.omega = 7; g_eop.mjd = 1;
      g_eoprc = I(9);
      rec = iers2010::sofa::VfRecord(); rec.X = I(10) * as; rec.Y = I(11) * as; rec.S = I(12) * as; rec.SP = I(13) * as;
      dso::EopLookUpTable tab;
      M3 a = M3::Constant(99), b = M3::Constant(98); double e = 97, xl = 96;
      const int rc = dso::gcrs2itrs(I(1) + I(2) / 86400e3, tab, a, e, b, xl);
      auto ms = [&](double m) { return rnd((m - base) * 86400e3); };
      auto as3 = [&](const M3 &m) { return std::vector<long>{rnd(m(0, 0) / as), rnd(m(1, 1) / as), rnd(m(2, 2) / as)}; };
      vf::Ev("Orient").i("tai", (I(1) - base) * 86400000L + I(2)).i("leap", dso::dat(dso::modified_julian_day(I(1)))).i("dut", I(3)).i("inlod", I(4)).i("dx", I(5)).i("dy", I(6)).i("xp", I(7)).i("yp", I(8)).i("fail", I(9))
          .i("x", I(10)).i("y", I(11)).i("s", I(12)).i("sp", I(13)).i("rc", rc).i("lod", rnd(xl * 1e6)).i("eopat", ms(g_eopat)).i("xyat", ms(rec.xy_at)).i("sat", ms(rec.s_at)).i("spat", ms(rec.sp_at)).i("era", ms(e))
          .arr("sxy", std::vector<long>{rnd(rec.s_x / as), rnd(rec.s_y / as)}).arr("q", as3(a)).arr("w", as3(b)).out();
      return;
    }
    if (!have) return;
    if (t[0] == "T") {
      y = cel ? dso::ycel2ter(y, q, era, lod, p) : dso::yter2cel(y, q, era, lod, p);
      cel = !cel;
      vf::Ev("State").arr("r", v3(y.head<3>(), L)).arr("v", v3(y.tail<3>(), L * W0)).out();
    } else if (t[0] == "R") {
      const V3 r = y.head<3>();
      vf::Ev("Vector").arr("r", v3(cel ? dso::rcel2ter(r, q, era, p) : dso::rter2cel(r, q, era, p), L)).out();
    }
  };
  return d.run();
}
