// C36: gravity of a body given by spherical harmonics, and of point masses. -DVAR: the older copy.
#include "harness.hpp"
#include "egravity.hpp"
#include <map>
#include <memory>
#ifdef VAR
#include "compact2dmat.hpp"
#endif
using T = dso::Mat2D<dso::MatrixStorageType::Trapezoid>;
struct A3 { double v[3]; double g[3][3]; };
static long rn(double v) { return std::abs(v) < 2e9 ? std::lround(v) : vf::WEIRD; }
static A3 accel(int deg, int ord, double Re, double GM, const T &V, const T &W, dso::HarmonicCoeffs &hc, int how) {
  A3 a;
  for (auto &r : a.g) for (auto &x : r) x = NAN;
#ifdef VAR
  (void)how;
  a.v[0] = a.v[1] = a.v[2] = NAN;
  if (dso::grav_potential_accel(deg, ord, Re, GM, V, W, hc, a.v)) a.v[0] = NAN;
#else
  Eigen::Matrix<double, 3, 1> r; Eigen::Matrix<double, 3, 3> g = Eigen::Matrix<double, 3, 3>::Constant(NAN);
  hc.Re() = (how & 2) ? Re : 1.5; hc.GM() = (how & 2) ? GM : 2.5;
  if (how & 1) r = (how & 2) ? dso::grav_potential_accel(deg, ord, V, W, hc, g) : dso::grav_potential_accel(deg, ord, Re, GM, V, W, hc, g);
  else r = (how & 2) ? dso::grav_potential_accel(deg, ord, V, W, hc) : dso::grav_potential_accel(deg, ord, Re, GM, V, W, hc);
  for (int i = 0; i < 3; i++) { a.v[i] = r(i); for (int j = 0; j < 3; j++) a.g[i][j] = g(i, j); }
#endif
  return a;
}
static A3 at(const double *p, int deg, int ord, double Re, double GM, dso::HarmonicCoeffs &hc, bool par, int extra = 0, double dirt = NAN) {
#ifndef VAR
  if (extra == 0) { // everything in one call
    const int k = par ? 3 : 2;
    T V(deg + k, ord + k), W(deg + k, ord + k); V.fill_with(dirt); W.fill_with(dirt);
    hc.Re() = Re; hc.GM() = GM;
    Eigen::Matrix<double, 3, 1> r(p[0], p[1], p[2]), a; Eigen::Matrix<double, 3, 3> g = Eigen::Matrix<double, 3, 3>::Constant(NAN);
    if (par) a = dso::grav_potential_accel(r, deg, ord, V, W, hc, g); else a = dso::grav_potential_accel(r, deg, ord, V, W, hc);
    A3 o;
    for (int i = 0; i < 3; i++) { o.v[i] = a(i); for (int j = 0; j < 3; j++) o.g[i][j] = g(i, j); }
    return o;
  }
#endif
  T V(deg + 3 + extra, ord + 3 + extra), W(deg + 3 + extra, ord + 3 + extra); V.fill_with(dirt); W.fill_with(dirt);
  A3 bad; for (double &x : bad.v) x = NAN;
  if (dso::lagrange_polynomials(p[0], p[1], p[2], Re, deg + 2, ord + 2, V, W)) return bad;
  return accel(deg, ord, Re, GM, V, W, hc, par);
}
static double rel(const double *a, const double *b, int n) {
  double m = 0, d = 0;
  for (int i = 0; i < n; i++) { m = std::max(m, std::abs(a[i])); const double e = std::abs(a[i] - b[i]); if (!(e <= d)) d = e; }
  return d == 0 ? 0 : d / m;
}
struct Rng { unsigned long s; double u() { s = s * 6364136223846793005ul + 1442695040888963407ul; return ((s >> 11) / 9007199254740992e0) * 2 - 1; } };
int main() {
  vf::Driver d;
  const int N = 4;
  std::unique_ptr<dso::HarmonicCoeffs> hc;
  struct Ws { std::unique_ptr<T> V, W; double p[3], L, nu, r; int deg = -9, ord = -9; } ws[2];
  int hcdeg = N;
  d.begin = [&] { hcdeg = N; hc.reset(); for (auto &w : ws) { w.V.reset(); w.W.reset(); w.deg = w.ord = -9; } vf::Ev("New").out(); };
  auto zero = [](dso::HarmonicCoeffs &h, int n) { for (int i = 0; i <= n; i++) for (int j = 0; j <= i; j++) { h.C(i, j) = 0; if (j) h.S(i, j) = 0; } };
  auto table = [&]() -> dso::HarmonicCoeffs & { if (!hc) { hc.reset(new dso::HarmonicCoeffs(hcdeg)); zero(*hc, hcdeg); } return *hc; };
  d.cmd = [&](vf::Driver::Toks &t) {
    auto I = [&](size_t k) { return k < t.size() ? std::atoi(t[k].c_str()) : 0; };
    auto D = [&](size_t k) { return k < t.size() ? std::atof(t[k].c_str()) : 0e0; };
    auto show = [&](vf::Ev &e, const A3 &a, bool par, double GM, double L, double nu, double r) {
      std::vector<long> v, g;
      const double f = 8 * std::pow(nu, N) / GM;
      for (double x : a.v) v.push_back(vf::toi_scaled(x, f * L * L * r * r * r));
      for (auto &q : a.g) for (double x : q) g.push_back(vf::toi_scaled(x, f * L * L * L * std::pow(r, 5)));
      e.arr("a", v);
      if (par) e.arr("g", g);
      e.out();
    };
    if (t[0] == "Deg") { if (!hc) hcdeg = I(1); return; }
    if (t[0] == "Set") { // Set n m part v
      auto &h = table();
      (t[3] == "c" ? h.C(I(1), I(2)) : h.S(I(1), I(2))) = I(4);
      vf::Ev("Set").i("n", I(1)).i("m", I(2)).str("part", t[3]).i("v", I(4)).out();
    } else if (t[0] == "Fill") { // Fill k x y z nu deg ord extra L
      Ws &w = ws[I(1) - 1];
      const int deg = I(6), ord = I(7), ex = I(8);
      if (ord > deg) { // refused
        T V(ord + 1, ord + 1), W(ord + 1, ord + 1);
        const int rc = dso::lagrange_polynomials(D(2), D(3), D(4), 1, deg, ord, V, W);
        vf::Ev("Fill").i("k", I(1)).i("deg", deg).i("ord", ord).i("rc", rc).out();
        return;
      }
      if (!w.V || w.V->rows() < deg + 1 || w.V->cols() < ord + 1 || ex < 0) {
        w.V.reset(new T(deg + 1 + std::max(ex, 0), ord + 1 + std::max(ex, 0))); w.W.reset(new T(deg + 1 + std::max(ex, 0), ord + 1 + std::max(ex, 0)));
        w.V->fill_with(NAN); w.W->fill_with(NAN);
      }
      w.L = D(9); w.nu = D(5); const double r2 = I(2) * I(2) + I(3) * I(3) + I(4) * I(4); w.r = std::sqrt(r2);
      const double R = r2 * w.L / w.nu;
      const int rc = dso::lagrange_polynomials(I(2) * w.L, I(3) * w.L, I(4) * w.L, R, deg, ord, *w.V, *w.W);
      if (!rc) { w.deg = deg; w.ord = ord; for (int i = 0; i < 3; i++) w.p[i] = I(2 + i) * w.L; }
      std::vector<long> v, s;
      if (!rc) for (int n = 0; n <= std::min(deg, N); n++) for (int m = 0; m <= std::min(n, ord); m++) {
        const double f = 8 * std::pow(w.nu, n + 1) / w.r;
        v.push_back(vf::toi_scaled((*w.V)(n, m), f)); s.push_back(vf::toi_scaled((*w.W)(n, m), f));
      }
      vf::Ev("Fill").i("k", I(1)).arr("p", std::vector<long>{I(2), I(3), I(4)}).i("nu", I(5)).i("deg", deg).i("ord", ord).i("rc", rc).arr("v", v).arr("s", s).out();
#ifdef DEBUG
      if (!rc) { // the other storage
        using Q = dso::Mat2D<dso::MatrixStorageType::RowWise>;
        Q V(deg + 1, std::max(deg, ord) + 1), W(deg + 1, std::max(deg, ord) + 1);
        const int rc2 = deg < 1 ? 0 : dso::lagrange_polynomials(w.p[0], w.p[1], w.p[2], R, deg, ord, V, W);
        long bad = rc2;
        if (deg >= 1) for (int n = 0; n <= deg; n++) for (int m = 0; m <= std::min(n, ord); m++) if (!(std::abs(V(n, m) - (*w.V)(n, m)) <= 1e-9 * (1 + std::abs(V(n, m)))) || !(std::abs(W(n, m) - (*w.W)(n, m)) <= 1e-9 * (1 + std::abs(W(n, m))))) bad++;
        vf::Ev("Storage").i("bad", bad).out();
      }
#endif
    } else if (t[0] == "Use") { // Use k deg ord how GM
      Ws &w = ws[I(1) - 1];
      const int x = (I(4) & 1) ? 2 : 1;
      if (w.deg < I(2) + x || w.ord < I(3) + x || I(2) > hcdeg) return;
#ifdef VAR
      if (I(4) & 1) return;
#endif
      const double GM = D(5);
      const A3 a = accel(I(2), I(3), w.r * w.r * w.L / w.nu, GM, *w.V, *w.W, table(), I(4));
      vf::Ev e("Use"); e.i("k", I(1)).i("deg", I(2)).i("ord", I(3)).i("par", I(4) & 1);
      show(e, a, I(4) & 1, GM, w.L, w.nu, w.r);
    } else if (t[0] == "At") { // At x y z nu deg ord par GM L
      if (I(5) > hcdeg) return;
      const double L = D(9), GM = D(8), nu = D(4), r2 = I(1) * I(1) + I(2) * I(2) + I(3) * I(3);
      const double p[3] = {I(1) * L, I(2) * L, I(3) * L};
      bool par = I(7);
#ifdef VAR
      par = false;
#endif
      const A3 a = at(p, I(5), I(6), r2 * L / nu, GM, table(), par);
      vf::Ev e("At"); e.arr("p", std::vector<long>{I(1), I(2), I(3)}).i("nu", I(4)).i("deg", I(5)).i("ord", I(6)).i("par", par);
      show(e, a, par, GM, L, nu, std::sqrt(r2));
    } else if (t[0] == "Axis") { // Axis n sign: one zonal term, on the axis
      const int n = I(1);
      dso::HarmonicCoeffs h(n); zero(h, n); h.C(n, 0) = 1;
      const double L = D(3), p[3] = {0, 0, I(2) * L};
      const A3 a = at(p, n, 0, L, L * L, h, true);
#ifdef VAR
      const double g[3] = {0, 0, 0}; const int par = 0;
#else
      const double g[3] = {a.g[0][0] * 2 * L, a.g[1][1] * 2 * L, a.g[2][2] * L}; const int par = 1;
#endif
      vf::Ev("Axis").i("n", n).i("sg", I(2)).i("par", par).arr("a", std::vector<long>{vf::toi(a.v[0]), vf::toi(a.v[1]), vf::toi(a.v[2])}).arr("g", std::vector<long>{vf::toi(g[0]), vf::toi(g[1]), vf::toi(g[2])}).out();
    } else if (t[0] == "Equator") { // Equator n part quarter L: one sectorial term, on the equator
      const int n = I(1), q = I(3);
      double f = 1; for (int k = 1; k <= n; k++) f *= 2 * k - 1;
      dso::HarmonicCoeffs h(n); zero(h, n); (t[2] == "c" ? h.C(n, n) : h.S(n, n)) = 1 / f;
      const double L = D(4), p[3] = {L * ((q == 0) - (q == 2)), L * ((q == 1) - (q == 3)), 0};
      const A3 a = at(p, n, n, L, L * L, h, false);
      vf::Ev("Equator").i("n", n).str("part", t[2]).i("q", q).arr("a", std::vector<long>{vf::toi(a.v[0]), vf::toi(a.v[1]), vf::toi(a.v[2])}).out();
    } else if (t[0] == "Rel") { // Rel seed deg ord tabledeg: relations between results of large expansions
      Rng r{(unsigned long)I(1) * 2654435761ul + 12345};
      const int deg = I(2), ord = I(3), td = I(4);
      for (int k = 0; k < 10; k++) r.u();
      dso::HarmonicCoeffs a(td), b(td), s(td), cut(td), turned(td);
      for (int n = 0; n <= td; n++) for (int m = 0; m <= n; m++) {
        const double f = std::exp(.5 * (std::lgamma(n - m + 1) - std::lgamma(n + m + 1)));
        a.C(n, m) = f * r.u(); b.C(n, m) = f * r.u(); s.C(n, m) = a.C(n, m) + b.C(n, m); cut.C(n, m) = (n <= deg && m <= ord) ? a.C(n, m) : 0;
        if (m) { a.S(n, m) = f * r.u(); b.S(n, m) = f * r.u(); s.S(n, m) = a.S(n, m) + b.S(n, m); cut.S(n, m) = (n <= deg && m <= ord) ? a.S(n, m) : 0; }
        const double c = a.C(n, m), z = m ? a.S(n, m) : 0;
        const int q = m % 4; // the field turned by a quarter
        turned.C(n, m) = q == 0 ? c : q == 1 ? -z : q == 2 ? -c : z;
        if (m) turned.S(n, m) = q == 0 ? z : q == 1 ? c : q == 2 ? -z : -c;
      }
      const double R = 6.4e6, GM = 4e14;
      double p[3] = {r.u(), r.u(), r.u()}; const double l = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]), f = R * (1.2 + .15 * r.u()) / l;
      for (double &x : p) x *= f;
#ifdef VAR
      const bool par = false;
#else
      const bool par = true;
#endif
      const A3 A = at(p, deg, ord, R, GM, a, par), plain = at(p, deg, ord, R, GM, a, false, 3), B = at(p, deg, ord, R, GM, b, false, 0, 1e300), S = at(p, deg, ord, R, GM, s, false, 1, -1e30), K = at(p, td, td, R, GM, cut, false, 2);
      const double pt[3] = {-p[1], p[0], p[2]};
      const A3 Tn = at(pt, deg, ord, R, GM, turned, par);
      const double back[3] = {Tn.v[1], -Tn.v[0], Tn.v[2]}, sum[3] = {A.v[0] + B.v[0], A.v[1] + B.v[1], A.v[2] + B.v[2]};
      const double h = 1e-4 * R / (deg + 2);
      double fd[9], g[9], gt[9], div = 0;
      for (int j = 0; j < 3; j++) {
        double q[3] = {p[0], p[1], p[2]};
        q[j] = p[j] + h; const A3 u = at(q, deg, ord, R, GM, a, false); q[j] = p[j] - h; const A3 v = at(q, deg, ord, R, GM, a, false);
        for (int i = 0; i < 3; i++) { fd[3 * i + j] = (u.v[i] - v.v[i]) / (2 * h); g[3 * i + j] = A.g[i][j]; gt[3 * j + i] = A.g[i][j]; }
      }
      div = fd[0] + fd[4] + fd[8];
      double mx = 0; for (double x : fd) mx = std::max(mx, std::abs(x));
      const double fdt[9] = {fd[0], fd[3], fd[6], fd[1], fd[4], fd[7], fd[2], fd[5], fd[8]};
      vf::Ev("Rel").i("deg", deg).i("ord", ord).i("par", par).i("same", rn(1e12 * rel(A.v, plain.v, 3))).i("lin", rn(1e9 * rel(sum, S.v, 3))).i("cut", rn(1e9 * rel(A.v, K.v, 3))).i("turn", rn(1e9 * rel(A.v, back, 3)))
          .i("curl", rn(1e9 * rel(fd, fdt, 9))).i("div", rn(1e9 * std::abs(div) / mx)).i("fd", par ? rn(1e9 * rel(fd, g, 9)) : 0).i("sym", par ? rn(1e9 * rel(g, gt, 9)) : 0).out();
    } else if (t[0] == "Mass") { // Mass dx dy dz dl sx sy sz sl GM L
#ifndef VAR
      const double L = D(10), GM = D(9);
      Eigen::Matrix<double, 3, 1> s(I(5) * L, I(6) * L, I(7) * L), r = s + Eigen::Matrix<double, 3, 1>(I(1) * L, I(2) * L, I(3) * L);
      Eigen::Matrix<double, 3, 3> g = Eigen::Matrix<double, 3, 3>::Constant(NAN);
      const Eigen::Matrix<double, 3, 1> a = dso::point_mass_accel(GM, r, s), b = dso::point_mass_accel(GM, r, s, g);
      const dso::Vector3 c = dso::point_mass_accel(dso::Vector3({r(0), r(1), r(2)}), dso::Vector3({s(0), s(1), s(2)}), GM);
      const double f = L * L / GM * std::pow(I(4) * (double)I(8), 3), q = L * L * L / GM * std::pow(I(4), 5);
      auto v = [&](double x) { return vf::toi_scaled(x, f); };
      std::vector<long> gg; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) gg.push_back(vf::toi_scaled(g(i, j), q));
      vf::Ev("Mass").arr("d", std::vector<long>{I(1), I(2), I(3)}).i("dl", I(4)).arr("s", std::vector<long>{I(5), I(6), I(7)}).i("sl", I(8)).arr("a", std::vector<long>{v(a(0)), v(a(1)), v(a(2))}).arr("b", std::vector<long>{v(b(0)), v(b(1)), v(b(2))})
          .arr("c", std::vector<long>{v(c(0)), v(c(1)), v(c(2))}).arr("g", gg).out();
#endif
    }
  };
  return d.run();
}
