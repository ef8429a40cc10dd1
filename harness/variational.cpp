// C38: right-hand side of the variational equations; the models are stand-ins with given values that record what they are asked.
#include "harness.hpp"
#include "orbit_integration.hpp"
#include "astrodynamics.hpp"
#include "iers2010/iersc.hpp"
#include <memory>
using V3 = Eigen::Matrix<double, 3, 1>;
using M3 = Eigen::Matrix<double, 3, 3>;
using T = dso::Mat2D<dso::MatrixStorageType::Trapezoid>;
static const int ANG[12][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}};
struct Given {
  V3 acc, sun, moon, d, dc, g; M3 grad, third, dr, dv; double k = 0;
  M3 q, p; double era = 0; Eigen::Quaterniond att; bool noatt = false;
} G;
struct Seen {
  V3 gpos, smr, drr, drv, drho; double trot = 0, tsm = 0, tatt = 0, gms = 0, gmm = 0, area = 0, cd = 0, mass = 0, rho = 0, utc = 0, lst = 0; int win[2] = {-1, -1}, poly[2] = {-1, -1}; const void *V = nullptr, *W = nullptr; bool pure = true;
} S;
int dso::gcrs2itrs(double t, const dso::EopLookUpTable &, M3 &q, double &era, M3 &p, double &xlod) noexcept { S.trot = t; q = G.q; p = G.p; era = G.era; xlod = 1e-3; return 0; }
V3 dso::rcel2ter(const V3 r, const M3 &q, const double era, const M3 &p) noexcept { return p * (Eigen::AngleAxisd(-era, V3::UnitZ()) * (q * r)); }
V3 dso::rter2cel(const V3 r, const M3 &q, const double era, const M3 &p) noexcept { return q.transpose() * (Eigen::AngleAxisd(era, V3::UnitZ()) * (p.transpose() * r)); }
int dso::lagrange_polynomials(double x, double y, double z, double, int l, int k, T &V, T &W) noexcept { S.gpos = V3(x, y, z); S.poly[0] = l; S.poly[1] = k; S.V = &V; S.W = &W; return 0; }
V3 dso::grav_potential_accel(int deg, int ord, double, double, const T &V, const T &W, const dso::HarmonicCoeffs &, M3 &partials) noexcept { S.win[0] = deg; S.win[1] = ord; partials = G.grad; if (S.V != &V || S.W != &W) S.win[0] = -2; return G.acc; }
V3 dso::grav_potential_accel(int deg, int ord, double, double, const T &V, const T &W, const dso::HarmonicCoeffs &) noexcept { S.win[0] = deg; S.win[1] = ord; if (S.V != &V || S.W != &W) S.win[0] = -2; return G.acc; }
void dso::SunMoon(double t, const V3 &r, double gs, double gm, V3 &sun, V3 &moon, V3 &pos, M3 &part) noexcept { S.tsm = t; S.smr = r; S.gms = gs; S.gmm = gm; sun = G.sun; moon = G.moon; pos = V3(1, 2, 3); part = G.third; }
int dso::get_sun_moon_GM(const char *, double &s, double &m) noexcept { s = 17; m = 19; return 0; }
int dso::JasonQuaternionHunter::get_at(double t, Eigen::Quaternion<double> &q) noexcept { S.tatt = t; if (G.noatt) return 1; q = G.att; return 0; }
dso::nrlmsise00::detail::InParamsCore::InParamsCore(dso::modified_julian_day, double) noexcept { lst = 777; alt = glat = glon = sec = 0; year = doy = 1; }
dso::nrlmsise00::detail::Nrlmsise00DataFeed::Nrlmsise00DataFeed(const char *, dso::nrlmsise00::detail::InParamsCore &) {}
int dso::nrlmsise00::detail::Nrlmsise00DataFeed::update(dso::nrlmsise00::detail::InParamsCore &p) noexcept {
  S.utc = (double)dso::ydoy2mjd(dso::year(p.year), dso::day_of_year(p.doy)).as_underlying_type() + p.sec / 86400e0;
  return 0;
}
static double density(const dso::nrlmsise00::detail::InParamsCore *in, double &lst) {
  constexpr double a = dso::ellipsoid_traits<dso::ellipsoid::grs80>::a, f = dso::ellipsoid_traits<dso::ellipsoid::grs80>::f, e2 = f * (2 - f);
  const double la = dso::deg2rad(in->glat), lo = dso::deg2rad(in->glon), h = in->alt * 1e3, s = std::sin(la), N = a / std::sqrt(1 - e2 * s * s);
  const V3 x((N + h) * std::cos(la) * std::cos(lo), (N + h) * std::cos(la) * std::sin(lo), (N * (1 - e2) + h) * s);
  double d = std::fmod(in->lst - (in->sec / 3600 + in->glon / 15), 24); if (d > 12) d -= 24; if (d < -12) d += 24;
  lst = std::max(lst, std::abs(d));
  if (!(in->lst >= -1e-9 && in->lst <= 24 + 1e-9)) lst = 99;
  return G.k + G.g.dot(x);
}
int dso::Nrlmsise00::gtd7d(const dso::nrlmsise00::detail::InParamsCore *in, dso::nrlmsise00::OutParams *out, int) noexcept { for (double &x : out->d) x = 1e9; out->d[5] = density(in, S.lst); return 0; }
int dso::Nrlmsise00::gtd7(const dso::nrlmsise00::detail::InParamsCore *in, dso::nrlmsise00::OutParams *out, int) noexcept { for (double &x : out->d) x = 2e9; (void)in; return 0; }
V3 dso::drag_accel(const V3 &r, const V3 &v, double A, double CD, double m, double rho, const V3 &drho, M3 &dr, M3 &dv, V3 &dc) noexcept {
  S.drr = r; S.drv = v; S.area = A; S.cd = CD; S.mass = m; S.rho = rho; S.drho = drho; dr = G.dr; dv = G.dv; dc = G.dc; return G.d;
}
int main() {
  vf::Driver d;
  auto rot = [](int ax, int k) {
    const double c = ANG[k][0] / 5e0, s = ANG[k][1] / 5e0; M3 m = M3::Identity(); const int i = ax % 3, j = (ax + 1) % 3;
    m(i, i) = c; m(i, j) = s; m(j, i) = -s; m(j, j) = c; return m;
  };
  dso::EopLookUpTable eop;
  std::unique_ptr<dso::HarmonicCoeffs> hc; std::unique_ptr<dso::IntegrationParameters> par;
  std::vector<dso::MacroModelComponent> plates;
  dso::nrlmsise00::InParams<dso::nrlmsise00::detail::FluxDataFeedType::ST_CSV_SW> feed("none", dso::modified_julian_day(58000), 0e0);
  alignas(64) static char model[sizeof(dso::Nrlmsise00)], hunter[sizeof(dso::JasonQuaternionHunter)];
  double mass = 1, cd = 1; int deg = 0, ord = 0;
  d.begin = [&] { par.reset(); };
  d.cmd = [&](vf::Driver::Toks &t) {
    size_t at = 1;
    auto I = [&] { return at < t.size() ? std::atoi(t[at++].c_str()) : 0; };
    auto vec = [&](std::vector<long> &o) { V3 v; for (int i = 0; i < 3; i++) { v(i) = I(); o.push_back(v(i)); } return v; };
    auto mat = [&](std::vector<long> &o) { M3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { m(i, j) = I(); o.push_back(m(i, j)); } return m; };
    if (t[0] == "Config") { // Config deg ord mass cd k g3 acc3 grad9 sun3 moon3 third9 d3 dr9 dv9 dc3 nplates (s n3)...
      deg = I(); ord = I(); mass = I(); cd = I(); G.k = I();
      std::vector<long> g, a, gr, s, m, th, dd, dr, dv, dc;
      G.g = vec(g); G.acc = vec(a); G.grad = mat(gr); G.sun = vec(s); G.moon = vec(m); G.third = mat(th); G.d = vec(dd); G.dr = mat(dr); G.dv = mat(dv); G.dc = vec(dc);
      const int n = I(); plates.clear(); std::string pl = "[";
      for (int i = 0; i < n; i++) {
        dso::MacroModelComponent c{}; c.m_surf = I(); pl += (i ? ",[" : "[") + std::to_string((long)c.m_surf);
        for (double &x : c.m_normal) { x = I(); pl += "," + std::to_string((long)x); }
        pl += "]"; plates.push_back(c);
      }
      hc.reset(new dso::HarmonicCoeffs(deg)); par.reset(new dso::IntegrationParameters(deg, ord, eop, *hc, "none"));
      par->macromodel = plates.data(); par->numMacroModelComponents = n; par->SatMass = &mass; par->drag_coef = &cd; par->AtmDataFeed = &feed;
      par->nrlmsise00 = (dso::Nrlmsise00 *)model; par->qhunt = (dso::JasonQuaternionHunter *)hunter;
      vf::Ev("Config").raw("plates", pl + "]").i("cd", cd).i("mass", mass).arr("acc", a).arr("grad", gr).arr("sun", s).arr("moon", m).arr("third", th).i("k", G.k).arr("g", g).arr("d", dd).arr("dr", dr).arr("dv", dv).arr("dc", dc).out();
      return;
    }
    if (t[0] == "Eval" && par) { // Eval base day ms sec q qk e p pk r3 u3 len att4 noatt phi42
      const int base = I(), day = I(), ms = I(), sec = I(); // at day + ms, reached as sec seconds after the start
      const int q = I(), qk = I(), e = I(), p = I(), pk = I();
      std::vector<long> r, u, phi; const V3 ri = vec(r), ui = vec(u); const int len = I();
      int w[4]; for (int &x : w) x = I();
      G.noatt = I(); G.q = rot(q, qk); G.p = rot(p, pk); G.era = std::atan2(ANG[e][1], ANG[e][0]); G.att = Eigen::Quaterniond(w[0], w[1], w[2], w[3]);
      const V3 R = ri * 1e5, V = ui * 1e3 + V3(0, 0, iers2010::OmegaEarth).cross(R);
      Eigen::VectorXd y(48), yp = Eigen::VectorXd::Constant(48, NAN);
      y << R, V, Eigen::VectorXd::Zero(42);
      for (int i = 0; i < 42; i++) { phi.push_back(I()); y(6 + i) = phi.back(); }
      S = Seen();
      par->mjd_tai = day + ms / 86400e3 - sec / 86400e0;
      dso::VariationalEquations(sec, y, yp, *par);
      auto tm = [&](double m) { const double v = (m - base) * 86400e3; return std::abs(v) < 2e9 ? std::lround(v) : vf::WEIRD; };
      auto v3 = [&](const V3 &x, double f) { return std::vector<long>{vf::toi_scaled(x(0), f), vf::toi_scaled(x(1), f), vf::toi_scaled(x(2), f)}; };
      auto soft = [&](const V3 &x, double f) { std::vector<long> o; for (int i = 0; i < 3; i++) { const double k = std::nearbyint(x(i) * f); o.push_back(std::abs(x(i) * f - k) < 1e-3 ? (long)k : vf::WEIRD); } return o; };
      std::vector<long> pp; for (int i = 6; i < 48; i++) pp.push_back(vf::toi_scaled(yp(i), 15625));
      const double w2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2] + w[3] * w[3];
      vf::Ev ev("Eval");
      ev.i("q", q).i("qk", qk).i("e", e).i("p", p).i("pk", pk).arr("r", r).arr("u", u).i("deg", deg).i("ord", ord).arr("att", std::vector<long>{w[0], w[1], w[2], w[3]}).i("noatt", G.noatt).arr("phi", phi)
          .i("tai", (day - base) * 86400000L + ms).i("leap", dso::dat(dso::modified_julian_day(day)))
          .arr("gpos", v3(S.gpos, 125 / 1e5)).arr("win", std::vector<long>{S.win[0], S.win[1]}).arr("poly", std::vector<long>{S.poly[0], S.poly[1]}).i("tsm", tm(S.tsm)).i("trot", tm(S.trot)).i("smr", S.smr == R).i("gm", S.gms == 17 && S.gmm == 19).i("tatt", tm(S.tatt))
          .i("v0", yp(0) == V(0) && yp(1) == V(1) && yp(2) == V(2)).arr("acc", v3(V3(yp(3), yp(4), yp(5)), 125)).arr("phip", pp);
      if (!G.noatt) ev.i("cd", vf::toi(S.cd)).i("mass", vf::toi(S.mass)).i("rv", S.drr == R && S.drv == V).i("area", vf::toi_scaled(S.area, len * w2, 1e-9)).i("rho", vf::toi_scaled(S.rho, 1e0, 1e-7)).arr("drho", soft(S.drho, 125)).i("utc", tm(S.utc)).i("lst", std::lround(S.lst * 1e6));
      ev.out();
    }
  };
  return d.run();
}
